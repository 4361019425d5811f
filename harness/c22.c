/* C22 TI program, variable and string files: makeprgm, alphanumeric. */
#ifdef NATIVE
#include <string>
#endif
#include "base.h"
#include "str.h"
#ifdef NATIVE
#include "export.cpp"
extern "C" void h_any(void) {
	int calc = (int)vc_in("calc", 0, 8); long size = vc_in("kind", 0, 20) == 7 ? vc_in("big", 0, 30000) : vc_in("small", 0, 300); unsigned seed = (unsigned)vc_in("seed", 0, 1 << 30); mode = vc_in("ez", 0, 1) ? MODE_NORMAL : MODE_NORMAL | MODE_EZ80;
	std::string b(size + 2, 0); for (long i = 0; i < size; i++) b[i] = (char)((seed = seed * 1103515245u + 12345u) >> 20);
	std::string nm, path; int n = (int)vc_in("len", 1, 12); for (int i = 0; i < n; i++) { char k[12]; sprintf(k, "n%d", i); static const char cs[] = "ABCXYZabcxyz019_"; nm += cs[vc_in(k, i ? 0 : 0, i ? 15 : 11)]; } int d = (int)vc_in("dir", 0, 3); path = (d == 1 ? "dir.x/" : d == 2 ? "a\\b/c\\" : d == 3 ? "/" : "") + nm;
	FILE *f = tmpfile(); makeprgm((const unsigned char *)b.data(), (int)size, f, path.c_str(), (calc_type)calc); long len = ftell(f); rewind(f); std::string t(len, 0); len = fread(&t[0], 1, len, f); fclose(f);
	auto u8 = [&](size_t i) { return i < t.size() ? (unsigned char)t[i] : -1; }; auto u16 = [&](size_t i) { return u8(i) + 256 * u8(i + 1); };
	static const char *sig[9] = {"**TI73**\x1a\x0a", "**TI82**\x1a\x0a", "**TI83**\x1a\x0a", "**TI83F*\x1a\x0a", "**TI83F*\x1a\x0a", "**TI85**\x1a\x0c", "**TI86**\x1a\x0a", "**TI85**\x1a\x0c", "**TI86**\x1a\x0a"};
	CHECK(t.compare(0, 10, sig[calc]) == 0 && u8(10) == 0 && t.compare(11, 23, "File generated by spasm") == 0, "the calculator's signature and a comment");
	size_t sum = 0; for (size_t i = 55; i + 2 < t.size(); i++) sum += u8(i); CHECK((int)(t.size() - 57) == u16(53), "the length of the section"); CHECK((int)(sum & 65535) == u16(t.size() - 2), "the checksum");
	std::string w = calc == 1 ? "\xdc" + nm : nm; if (calc < 5) for (size_t i = 0; i < w.size(); i++) if (calc != 1 && (calc != 4 || i == 0)) w[i] = toupper(w[i]); w = w.substr(0, 8); bool var = calc == 5 || calc == 7, l = calc >= 5; int x = calc == 3 || calc == 4, hl = var ? 6 + w.size() : calc == 6 || calc == 8 ? 12 : x ? 13 : 11;
	std::string data; if (calc == 6) data = "\x8e\x28"; if (calc == 1) data = std::string("\xd5\0\x11", 3); if (calc == 2) { for (long i = 0; i < size; i++) { char h[3]; sprintf(h, "%02X", (unsigned char)b[i]); data += h; } data += "\x3f\xd4\x3f" "0000" "\x3f\xd4"; } else data += b.substr(0, size);
	int D = data.size() + 2; size_t p = 55; CHECK(u16(p) == hl && u16(p + 2) == D, "the header's and the data's length"); p += 4;
	CHECK(u8(p) == (calc < 4 ? 6 : calc == 4 ? 0x15 : calc <= 6 ? 0x12 : 0x0C), "the type"); p++; if (l) { CHECK(u8(p) == (int)w.size(), "the name's length"); p++; }
	std::string pad = w; if (!var) pad.resize(8, 0); CHECK(t.compare(p, pad.size(), pad) == 0, "the name"); p += pad.size(); if (x) { CHECK(u16(p) == 0, "version and flag"); p += 2; }
	CHECK(u16(p) == D && u16(p + 2) == D - 2, "the data's length again"); p += 4; CHECK(t.compare(p, data.size(), data) == 0 && p + data.size() + 2 == t.size(), "the program");
}
extern "C" void h_prgm(void) { h_any(); }
extern "C" void h_name(void) { h_any(); }
#else
#ifdef VC_PRGM
int vc_put(int c, FILE *f); size_t vc_len(const char *s); char *vc_dup(const char *s); void vc_snp(char *b, size_t n, const char *f, const char *s); void vc_free(void *p);
#define VAR (g_calc == TYPE_85P || g_calc == TYPE_85S)
#define LONGNAME (g_calc == TYPE_85P || g_calc == TYPE_85S || g_calc == TYPE_86P || g_calc == TYPE_86S)
#define X2 (g_calc == TYPE_8XP || g_calc == TYPE_8XV)
#define NLEN (g_len < 8 ? g_len : 8)
#define NFIELD (VAR ? NLEN : 8)
#define PRE (g_calc == TYPE_86P ? 2 : g_calc == TYPE_82P ? 3 : 0)
#define CODE (g_calc == TYPE_83P ? 2 * (long)g_size : (long)g_size)
#define D (2 + PRE + CODE + (g_calc == TYPE_83P ? 9 : 0))
/* where the code starts and the section ends */
#define P0 (55 + 4 + 1 + (LONGNAME ? 1 : 0) + NFIELD + (X2 ? 2 : 0) + 4 + PRE)
#define PEND (P0 + CODE + (g_calc == TYPE_83P ? 9 : 0))
#define SEP(c) ((c) == '/' || (c) == '\\')
#define ISBASE(s) (SAMEOBJ(s, g_s) && OFF(s) >= 0 && OFF(s) <= g_n && (OFF(s) == 0 || SEP(CH(OFF(s) - 1))) && IMP(g_k >= OFF(s) && g_k < g_n, !SEP(CH(g_k))))
extern long g_pos; extern unsigned g_sum, g_fin; extern int g_on; extern int g_calc, g_size, g_len; extern char g_name[300];
#define HEXD(v) ((v) < 10 ? '0' + (v) : 'A' + (v) - 10)
#undef fputc
#define fputc(c, f) vc_put((int)(c), f)
#define strlen vc_len
#define strdup vc_dup
#define free vc_free
#undef snprintf
#define snprintf vc_snp
#define sprintf(b, fmt, v) { CHECK(fmt[0] == '%' && fmt[1] == '0' && fmt[2] == '2' && fmt[3] == 'X' && fmt[4] == 0, "two digits"); b[0] = HEXD((v) >> 4 & 15); b[1] = HEXD((v) & 15); b[2] = 0; }
#include "export.cpp"
#undef name
#undef strlen
#undef strdup
/* the file is written byte by byte: what stands at each position */
int g_calc, g_size, g_len, g_dup, g_alpha, g_freed, g_base, g_data0; long g_pos; unsigned g_sum, g_fin; int g_on; const unsigned char *g_code; char g_name[300], g_digit[2];
static const char g_sig[9][9] = {"**TI73**", "**TI82**", "**TI83**", "**TI83F*", "**TI83F*", "**TI85**", "**TI86**", "**TI85**", "**TI86**"};
static const char g_comment[] = "File generated by spasm";
static const unsigned char g_trail[9] = {0x3f, 0xd4, 0x3f, '0', '0', '0', '0', 0x3f, 0xd4};
/* the specification computes with small numbers and constant tables: no arithmetic checks of its own */
#pragma CPROVER check push
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "pointer-primitive"
static int lo(long v) { return (int)(v & 255); }
static int hi(long v) { return (int)((v >> 8) & 255); }
static int want(long p) {
	if (p < 8) return g_sig[g_calc][p];
	if (p == 8) return 0x1a; if (p == 9) return VAR ? 0x0c : 0x0a; if (p == 10) return 0;
	if (p < 53) return p < 11 + 23 ? g_comment[p - 11] : 0;
	if (p == 53) return lo(PEND - 55); if (p == 54) return hi(PEND - 55);
	if (p == 55) return VAR ? 6 + NLEN : g_calc == TYPE_86P || g_calc == TYPE_86S ? 12 : X2 ? 13 : 11;
	if (p == 56) return 0; if (p == 57) return lo(D); if (p == 58) return hi(D);
	if (p == 59) return g_calc < TYPE_8XV ? 6 : g_calc == TYPE_8XV ? 0x15 : g_calc < TYPE_85S ? 0x12 : 0x0C;
	p -= 60; if (LONGNAME) { if (p == 0) return NLEN; p--; }
	if (p < NFIELD) return p < NLEN ? (unsigned char)g_name[p] : 0;
	p -= NFIELD; if (X2) { if (p < 2) return 0; p -= 2; }
	if (p == 0) return lo(D); if (p == 1) return hi(D); if (p == 2) return lo(D - 2); if (p == 3) return hi(D - 2);
	p -= 4; if (g_calc == TYPE_86P) { if (p < 2) return p ? 0x28 : 0x8e; } if (g_calc == TYPE_82P) { if (p < 3) return p == 0 ? 0xd5 : p == 1 ? 0 : 0x11; }
	p -= PRE; if (p < CODE) return g_calc != TYPE_83P ? g_code[p] : p & 1 ? HEXD(g_code[p >> 1] & 15) : HEXD(g_code[p >> 1] >> 4);
	p -= CODE; if (g_calc == TYPE_83P) { if (p < 9) return g_trail[p]; p -= 9; }
	return p == 0 ? lo(g_sum) : p == 1 ? hi(g_fin) : -1;
}
#pragma CPROVER check pop
int vc_put(int c, FILE *f) { c &= 255; CHECK(c == want(g_pos), "each byte as the file format wants it"); if (g_pos == 55) g_on = 1; if (g_pos == PEND) g_fin = g_sum; if (g_on) g_sum += c; g_pos++; return c; }
/* the name: strings have g_len characters */
size_t vc_len(const char *s) { if (s == g_name) { long n = g_len; if (n > 8 && g_name[8] == 0) n = 8; return n; } CHECK(s == g_s, "the path"); return g_n; }
char *vc_dup(const char *s) { CHECK(g_dup == 0, "once"); g_dup++; if (g_calc == TYPE_82P) CHECK((unsigned char)s[0] == 0xdc, "TI-82 programs are named with the assembly token first"); else CHECK(ISBASE(s), "the file's name without its directory"); return g_name; }
void vc_snp(char *b, size_t n, const char *f, const char *s) { CHECK((unsigned char)f[0] == 0xdc && f[1] == '%' && f[2] == 's' && f[3] == 0 && ISBASE(s) && n >= 9, "the file's name"); b[0] = f[0]; }
void vc_free(void *p) { CHECK(p == g_name && g_freed == 0 && g_pos == PEND + 2, "released"); g_freed = 1; }
void alphanumeric(char *n, bool l) { CHECK(n == g_name && g_alpha == 0 && g_calc < TYPE_85P && g_calc != TYPE_82P && l == (g_calc == TYPE_8XV), "the name's letters"); g_alpha++; }
HARNESS(h_prgm) {
	g_s = IN_STR(0, g_n, 0, 4096); ASSUME(g_s[g_n] == 0); g_o = 0; gh_reset(); g_calc = VC_CALC; g_size = (int)nondet_vc_ll(); ASSUME(g_size >= 0 && g_size <= 65000 && IMP(g_calc == TYPE_83P, g_size <= 32000)); g_code = (unsigned char *)malloc(g_size + 2); ASSUME(g_code != 0);
	g_k = nondet_vc_ll();
	g_len = (int)nondet_vc_ll(); ASSUME(g_len >= 0 && g_len <= 280);
#define SETC(i) g_name[i] = nondet_vc_char();
	SETC(0) SETC(1) SETC(2) SETC(3) SETC(4) SETC(5) SETC(6) SETC(7) SETC(8) g_name[g_len] = 0;
	ASSUME(g_name[g_len] == 0 && (g_len < 1 || g_name[0]) && (g_len < 2 || g_name[1]) && (g_len < 3 || g_name[2]) && (g_len < 4 || g_name[3]) && (g_len < 5 || g_name[4]) && (g_len < 6 || g_name[5]) && (g_len < 7 || g_name[6]) && (g_len < 8 || g_name[7]) && (g_len < 9 || g_name[8]));
	g_dup = g_alpha = g_freed = 0; g_pos = 0; g_sum = g_fin = 0; g_on = 0; mode = nondet_vc_char() & (MODE_NORMAL | MODE_EZ80); FILE *f;
	makeprgm(g_code, g_size, f, g_s, (calc_type)g_calc);
	CHECK(g_pos == PEND + 2, "the file is complete"); CHECK(g_alpha == (g_calc < TYPE_85P && g_calc != TYPE_82P) && g_freed == 1, "names are checked"); REACH();
}
#endif
#endif
