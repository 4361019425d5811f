/* C23 output formats: write_file, makerom. */
#ifdef NATIVE
#include <string>
#endif
#include "base.h"
#include "str.h"
#include <errno.h>
#ifdef NATIVE
static FILE *g_out; static int g_opened, g_closed, g_fail; static std::string g_path;
static FILE *vc_open(const char *n, const char *m) { g_opened++; g_path = n; if (g_fail) { errno = g_fail == 1 ? ENOENT : EACCES; return NULL; } return g_out; }
static int vc_close(FILE *f) { g_closed += f == g_out; return 0; }
#define fopen vc_open
#define fclose vc_close
#include "export.cpp"
#undef fopen
#undef fclose
#undef name
static std::string rd(FILE *f) { long len = ftell(f); rewind(f); std::string t(len, 0); len = fread(&t[0], 1, len, f); fclose(f); return t; }
static std::string up(std::string s) { for (auto &c : s) c = toupper(c); return s; }
extern "C" void h_write(void) {
	static const char *E[] = {"73p", "82p", "83p", "8xp", "8xv", "85p", "86p", "85s", "86s", "8xk", "rom", "hex", "bin", "8xp ", "8x", "8xpp", "xp", "obj", "", "romm", "8ek"};
	int size = (int)vc_in("size", 0, 400), k = (int)vc_in("ext", 0, 20), d = (int)vc_in("dir", 0, 7), dot = (int)vc_in("dot", 0, 9) != 0; unsigned seed = (unsigned)vc_in("seed", 0, 1 << 30);
	std::string b(size + 2, 0); for (int i = 0; i < size; i++) b[i] = (char)((seed = seed * 1103515245u + 12345u) >> 20); if (vc_in("app", 0, 1) && size > 60) { static const char H[] = "\x80\x0f\0\0\0\0\x80\x12\1\4\x80\x81\1\x80\x48NAMENAME"; memcpy(&b[0], H, sizeof H - 1); }
	std::string e = E[k]; for (size_t i = 0; i < e.size(); i++) { char q[8]; sprintf(q, "c%zu", i); if (vc_in(q, 0, 1)) e[i] = toupper(e[i]); }
	static const char *D[] = {"", "d/", "d.8xp/", "a.b\\c/", "..\\", "./", "/", "x.rom\\"}; std::string base = vc_in("two", 0, 3) == 0 ? "Prog.8xk" : vc_in("noname", 0, 9) ? "Prog" : "", path = std::string(D[d]) + base + (dot ? "." : "") + e;
	size_t p = path.rfind('.'), s = path.find_last_of("/\\"); int type = 12, unknown = 0; if (p != std::string::npos && p > 0 && (s == std::string::npos || s < p)) { type = -1; for (int i = 0; i < 13; i++) if (up(path.substr(p + 1)) == up(E[i])) type = i; if (type < 0) type = 12, unknown = 1; } else p = path.size();
	std::string cut = path.substr(0, p), hdr((char *)header8xk, sizeof header8xk); if (cut.size() > 200) return;
	FILE *w = tmpfile(); gh_reset(); unsigned sw; if (type < 9) makeprgm((unsigned char *)b.data(), size, w, cut.c_str(), (calc_type)type); else if (type == 9) makeapp((unsigned char *)b.data(), size, w, cut.c_str()); else if (type == 11) intelhex(w, (unsigned char *)b.data(), size, 0x4000); else { fwrite(b.data(), 1, size, w); if (type == 10) for (int i = size; i < 512 * 1024; i++) fputc(0xff, w); }
	sw = gh_warn; unsigned se = gh_err; std::string want = rd(w); memcpy(header8xk, hdr.data(), hdr.size()); gh_reset(); g_out = tmpfile(); g_opened = g_closed = 0; g_fail = (int)vc_in("fail", 0, 11); if (g_fail > 2) g_fail = 0;
	curr_input_file = strdup("old"); write_file((unsigned char *)b.data(), size, path.c_str()); std::string got = rd(g_out); memcpy(header8xk, hdr.data(), hdr.size());
	CHECK(g_opened == 1 && g_path == path && curr_input_file == NULL, "the named file is opened"); if (g_fail) { CHECK(gh_err == 1 && got.empty() && g_closed == 0 && gh_warn == (unsigned)unknown, "a file that cannot be written is an error"); return; }
	CHECK(g_closed == 1 && gh_warn == sw + unknown && gh_err == se && got == want, "the format is the extension's");
}
extern "C" void h_rom(void) { h_write(); }
#else
const unsigned char *g_code; int g_size; long g_pos; FILE *g_f, *g_f2;
#ifdef VC_ROM
void vc_put(int c, FILE *f) { CHECK(f == g_f && (c & 255) == (g_pos < g_size ? g_code[g_pos] : 0xff), "the program, then FF"); g_pos++; }
#undef fputc
#define fputc(c, f) vc_put((int)(c), f)
#include "export.cpp"
#undef name
HARNESS(h_rom) {
	g_size = (int)nondet_vc_ll(); ASSUME(g_size >= 0 && g_size <= 8000000); g_code = (unsigned char *)malloc(g_size + 1); ASSUME(g_code != 0); g_pos = 0;
	makerom(g_code, (DWORD)g_size, g_f); CHECK(g_pos == (g_size < 524288 ? 524288 : g_size), "512 KB at least"); REACH();
}
#else
/* g_i, g_j: where the scans for the last dot stopped; g_sep: the last separator's position */
long g_i, g_j, g_sep; int g_opened, g_closed, g_made, g_type, g_old, g_new, g_freed, g_errno; char g_cur[9], g_exp[9], *g_copy;
size_t vc_len(const char *s) { return (size_t)g_n; }
char *vc_dup(const char *s) { CHECK(g_freed == 1, "after releasing the old one"); g_new++; return g_exp; }
void vc_free(void *p) { if (g_freed == 0) CHECK(p == g_cur, "the old name is released"); else CHECK(p == g_exp && g_freed == 1, "and the new one at the end"); g_freed++; }
/* the copy equals the original: instances at g_k, at the end and (VC_COPY) at the positions scanned */
#define VC_COPY(i) ASSUME(prgmname[i] == g_s[i]);
void vc_cpy(char *d, const char *s) { CHECK(s == g_s && g_n < MAX_PATH, "the name fits"); ASSUME(d[g_k] == g_s[g_k] && d[g_n] == 0); g_copy = d; }
char *vc_pbrk(const char *p, const char *set) { CHECK(set[0] == '/' && set[1] == '\\' && set[2] == 0, "separators"); long o = OFF(p); if (!SAMEOBJ(p, g_s)) ASSUME(*p == g_s[o]); return g_sep >= o ? g_s + g_sep : (char *)0; }
#define UP(i) (CH(i) >= 'a' && CH(i) <= 'z' ? CH(i) - 32 : CH(i))
#define EXT(a, b, c) (UP(g_i + 1) == (a) && UP(g_i + 2) == (b) && UP(g_i + 3) == (c))
#define X4(i) (g_i + 4 <= g_n && g_i + 4 == g_n)
static int vc_type(void) {
	if (g_i == 0 || g_sep >= g_i) return 12; if (g_n - g_i != 4) return 13;
	return EXT('7', '3', 'P') ? 0 : EXT('8', '2', 'P') ? 1 : EXT('8', '3', 'P') ? 2 : EXT('8', 'X', 'P') ? 3 : EXT('8', 'X', 'V') ? 4 : EXT('8', '5', 'P') ? 5 : EXT('8', '6', 'P') ? 6 : EXT('8', '5', 'S') ? 7 : EXT('8', '6', 'S') ? 8 : EXT('8', 'X', 'K') ? 9 : EXT('R', 'O', 'M') ? 10 : EXT('H', 'E', 'X') ? 11 : EXT('B', 'I', 'N') ? 12 : 13;
}
#define LOW(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
int vc_icmp(const char *a, const char *b) { long o = OFF(a); int n = 0; CHECK(SAMEOBJ(a, g_s) && o >= 0 && o <= g_n, "the extension"); ASSUME(IMP(o + 3 < g_n, g_s[o + 3] != 0));
#define STEP(k) { int x = o + k < g_n ? (unsigned char)g_s[o + k] : 0, y = (unsigned char)b[k]; if (LOW(x) != LOW(y)) return 1; if (!y) return 0; }
	STEP(0) STEP(1) STEP(2) STEP(3) return 1; }
FILE *vc_open(const char *n, const char *m) {
	CHECK(n == g_s && m[0] == 'w' && m[1] == 'b' && m[2] == 0 && g_opened == 0, "the named file is opened"); CHECK(g_i >= 0 && g_i <= g_n && (g_i == 0 || CH(g_i) == '.') && IMP(g_k > g_i && g_k <= g_n, CH(g_k) != '.'), "the last dot");
	g_type = vc_type(); CHECK(gh_warn == (g_type == 13), "an unknown extension is warned about"); g_opened = 1; return g_f;
}
int vc_close(FILE *f) { CHECK(f == g_f && g_opened && g_closed == 0 && g_made, "closed once, when written"); g_closed = 1; return 0; }
static void vc_name(const char *p) { long c = g_j != 0 && g_sep < g_j ? g_j : g_n; CHECK(p == g_copy && p[c] == 0 && IMP(g_k >= 0 && g_k < c, p[g_k] == g_s[g_k]), "the name without its extension"); CHECK((g_j == 0 || CH(g_j) == '.') && IMP(g_k > g_j && g_k <= g_n, CH(g_k) != '.'), "the last dot"); }
#define MADE(lo, hi) CHECK(p == g_code && (int)n == g_size && f == g_f && g_opened && !g_made && g_type >= lo && g_type <= hi, "written in the extension's format"); g_made = 1;
void makeapp(const unsigned char *p, DWORD n, FILE *f, const char *nm) { MADE(9, 9) vc_name(nm); }
void makerom(const unsigned char *p, DWORD n, FILE *f) { MADE(10, 10) }
void makehex(const unsigned char *p, DWORD n, FILE *f) { MADE(11, 11) }
void vc_put(int c, FILE *f) { CHECK(f == g_f && g_opened && g_type >= 12 && g_pos < g_size && (c & 255) == g_code[g_pos], "the program's bytes"); g_pos++; }
int *__errno_location(void) { return &g_errno; }
#undef fputc
#define fputc(c, f) vc_put((int)(c), f)
#define fclose(f) { if (g_type >= 12) g_made = g_pos == g_size; vc_close(f); }
#define fopen vc_open
#define strlen vc_len
#undef strdup
#define strdup vc_dup
#define free vc_free
#define strcpy vc_cpy
#define strpbrk vc_pbrk
#undef _stricmp
#define _stricmp vc_icmp
#include "export.cpp"
#undef name
void makeprgm(const unsigned char *p, int n, FILE *f, const char *nm, calc_type calc) { MADE(0, 8) CHECK((int)calc == g_type, "the calculator's format"); vc_name(nm); }
HARNESS(h_write) {
	g_n = nondet_vc_ll(); ASSUME(g_n >= 0 && g_n < MAX_PATH); g_s = (char *)malloc(MAX_PATH); ASSUME(g_s != 0 && g_s[g_n] == 0); g_k = nondet_vc_ll(); ASSUME(g_k >= 0 && g_k <= g_n && IMP(g_k < g_n, g_s[g_k] != 0));
	g_sep = nondet_vc_ll(); ASSUME(g_sep >= -1 && g_sep < g_n && (g_sep < 0 || CH(g_sep) == '/' || CH(g_sep) == '\\')); g_size = (int)nondet_vc_ll(); ASSUME(g_size >= 0 && g_size <= 8000000); g_code = (unsigned char *)malloc(g_size + 1); ASSUME(g_code != 0);
	gh_reset(); g_i = g_j = g_n; g_pos = 0; g_opened = g_closed = g_made = g_type = g_new = g_freed = 0; curr_input_file = g_cur;
	write_file(g_code, g_size, g_s);
	CHECK(g_opened == 1 && curr_input_file == 0 && g_freed == 2 && g_new == 1, "the named file is opened"); CHECK(g_closed == (g_f != 0) && gh_err == (g_f == 0) && (g_f != 0 || !g_made), "written, or an error reported"); REACH();
}
#endif
#endif
