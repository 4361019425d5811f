/* C24 TI-83+ applications: makeapp, findfield, findfield_flex. */
#ifdef NATIVE
#include <string>
#include <vector>
#endif
#include "base.h"
#include "str.h"
#ifdef NATIVE
#include "export.cpp"
#undef name
static int hexb(const std::string &s, size_t i) { auto d = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -100000; }; return i + 1 < s.size() ? d(s[i]) * 16 + d(s[i + 1]) : -1; }
static void walk(const std::string &b, int *p12, int *p81, int *p4, int *n4) {
	auto at = [&](size_t i) { return i < b.size() ? (unsigned char)b[i] : 0; }; *p12 = *p81 = *p4 = *n4 = 0;
	for (size_t p = 6; at(p) == 0x80; p += 2 + (at(p + 1) & 15)) { int t = at(p + 1); if (t == 0x12 && !*p12) *p12 = p + 2; if (t == 0x81 && !*p81) *p81 = p + 2; if ((t & 0xf0) == 0x40 && !*p4) *p4 = p + 2, *n4 = t & 15; }
}
extern "C" void h_any(void) {
	long k = vc_in("kind", 0, 60), size = k == 7 ? vc_in("big", 0, 100000) : k < 6 ? 16384 * vc_in("pg", 1, 4) - vc_in("near", 0, 300) : k < 9 ? 16384 * vc_in("pg", 1, 4) + vc_in("near2", 0, 1200) : vc_in("small", 40, 400); unsigned seed = (unsigned)vc_in("seed", 0, 1 << 30);
	std::string b(size, 0); for (long i = 0; i < size; i++) b[i] = (char)((seed = seed * 1103515245u + 12345u) >> 20);
	std::string h; auto put = [&](int t, int n) { h += (char)0x80; h += (char)t; for (int i = 0; i < n; i++) h += (char)("NAME1234567890ABC"[i]); };
	h += std::string("\x80\x0f\0\0\0\0", 6); int n = (int)vc_in("nf", 0, 8);
	for (int i = 0; i < n; i++) { char q[12]; sprintf(q, "t%d", i); switch (vc_in(q, 0, 7)) { case 0: put(0x21, 1); break; case 1: put(0x32, 2); break; case 2: put(0x90, 0); break; case 3: put(0x40 + vc_in("nl", 1, 11), 0); h += std::string("APPNAMELONGER").substr(0, h.back() & 15); break; case 4: put(0x81, 1); break; case 5: put(0x12, 0); h += std::string(vc_in("ty", 0, 9) ? "\1\4" : "\1\5", 2); break; case 6: put(0x44, 4); break; case 7: put(0x52, 2); break; } }
	if (vc_in("all", 0, 3)) { put(0x12, 0); h += std::string("\1\4", 2); put(0x81, 1); put(0x48, 8); } put(0x70, 0); if (vc_in("bad", 0, 19) == 0) h[vc_in("badw", 0, 1)] ^= 1;
	for (size_t i = 0; i < h.size() && i < b.size(); i++) b[i] = h[i];
	gh_reset(); memset(header8xk + 16, 0, 9); FILE *f = tmpfile(); makeapp((const unsigned char *)b.data(), (DWORD)size, f, "x"); long len = ftell(f); rewind(f); std::string t(len, 0); len = fread(&t[0], 1, len, f); fclose(f);
	int p12, p81, p4, n4; walk(b, &p12, &p81, &p4, &n4); auto at = [&](size_t i) { return i < b.size() ? (unsigned char)b[i] : 0; };
	int rem = (int)((size + 96) % 16384), room = !(rem && rem < 97 && size + 96 > 16384), ok = room && at(0) == 0x80 && at(1) == 0x0f && p12 && at(p12) == 1 && at(p12 + 1) == 4 && p81 && p4;
	int pages = (int)((size + 16383) / 16384);
	CHECK(gh_err == (ok ? 0u : 1u) && (ok || t.empty()), "an application that is not complete is an error"); if (!ok) return;
	CHECK(t.compare(0, 16, std::string("**TIFL**\1\1\1\x88\1\1\x19\x97", 16)) == 0 && (unsigned char)t[16] == (n4 < 8 ? n4 : 8), "the header"); for (int i = 0; i < 8; i++) CHECK((unsigned char)t[17 + i] == (i < n4 ? (i + p4 >= 2 && i + p4 <= 5 ? 0 : i + p4 == p81 ? pages : at(i + p4)) : 0), "the name");
	for (int i = 25; i < 74; i++) CHECK((unsigned char)t[i] == (i == 48 ? 0x73 : i == 49 ? 0x24 : 0), "device and type"); long hl = 0; for (int i = 3; i >= 0; i--) hl = hl * 256 + (unsigned char)t[74 + i]; CHECK(hl == len - 78, "the length of the text");
	std::vector<int> d; size_t p = 78; while (p < t.size()) { size_t e = t.find("\r\n", p); std::string l = t.substr(p, (e == std::string::npos ? t.size() : e) - p); p = e == std::string::npos ? t.size() : e + 2; if (hexb(l, 7) == 0) for (int i = 0; i < hexb(l, 1); i++) d.push_back(hexb(l, 9 + 2 * i)); }
	CHECK((long)d.size() == size + 96, "the application and 96 bytes of signature");
	for (long i = 0; i < size; i++) { int w = i == p81 ? pages : i == 2 ? (size - 6) >> 24 & 255 : i == 3 ? (size - 6) >> 16 & 255 : i == 4 ? (size - 6) >> 8 & 255 : i == 5 ? (size - 6) & 255 : (unsigned char)b[i]; CHECK(d[i] == w, "the program with its length and pages filled in"); }
	int sl = d[size + 2], q; CHECK(d[size] == 2 && d[size + 1] == 0x2d && sl > 0 && sl <= 64, "the signature's field"); q = size + 3 + sl; if (d[q]) { CHECK(d[q] == 1 && d[q + 1] > 0 && d[q + 1] < 4, "f"); q++; } q++; for (; q < size + 96; q++) CHECK(d[q] == 0xff, "filled up");
}
extern "C" void h_fields(void) {
	int n = (int)vc_in("n", 0, 60); std::string b(n + 260, 0); for (int i = 0; i < n; i++) { char q[12]; sprintf(q, "b%d", i); int v = (int)vc_in(q, 0, 5); b[i] = v < 2 ? '\x80' : v == 2 ? 0x12 : v == 3 ? '\x81' : v == 4 ? 0x40 + n % 16 : (char)vc_in("x", 0, 255); } for (int i = 6; i < n && vc_in("chain", 0, 1);) { char q[12]; sprintf(q, "c%d", i); b[i] = '\x80'; i += 2 + (b[i + 1] & 15); }
	int p12, p81, p4, n4, a, c; walk(b, &p12, &p81, &p4, &n4);
	CHECK(findfield(0x12, (const unsigned char *)b.data()) == p12 && findfield(0x81, (const unsigned char *)b.data()) == p81, "fields are found"); int r = findfield_flex(0x40 + vc_in("lo", 0, 15), (const unsigned char *)b.data(), &a, &c); CHECK(r == !p4 && a == p4 && c == n4, "the name is found");
}
extern "C" void h_app(void) { if (vc_in("which", 0, 2)) h_any(); else h_fields(); }
extern "C" void h_flex(void) { h_fields(); }
extern "C" void h_find(void) { h_fields(); }
#else
#ifdef VC_APP
extern unsigned char *g_b; extern long g_size; extern int g_want, g_step, g_sl, g_f;
/* contracts of the functions called; the buffer's byte at the arbitrary position g_k is followed */
unsigned char *g_b; const unsigned char *g_src; long g_size; int g_p12, g_p81, g_p4, g_n4, g_step, g_sl, g_f, g_old, g_pos, g_done, g_want; unsigned g_len; int g_pages; FILE *g_out;
static int vc_be(long v, int k) { return (int)((v >> (8 * k)) & 255); }
#define PAGES g_pages
static int vc_was(long k) { return k >= 2 && k <= 5 ? vc_be(g_size - 6, 5 - (int)k) : g_old; }
static int vc_fixed(long k) { return k == g_p81 ? PAGES & 255 : vc_was(k); }
static int vc_final(long k) { long s = k - g_size; if (s < 0) return vc_fixed(k); if (s < 3) return s == 0 ? 2 : s == 1 ? 0x2d : g_sl; s -= 3; if (s < g_sl) return g_old; s -= g_sl; if (s == 0) return g_f ? 1 : 0; if (s == 1 && g_f) return g_f; return 0xff; }
void *vc_calloc(size_t a, size_t b) { CHECK(a * b >= (size_t)g_size + 96, "room for the signature"); return g_b; }
void vc_cpy(void *d, const void *s, size_t n) { CHECK(d == g_b && s == g_src && (long)n == g_size, "the program is copied"); }
void vc_free(void *p) { CHECK(p == g_b && !g_done, "released once"); g_done = 1; }
int findfield(unsigned char byte, const unsigned char *b) { CHECK(b == g_b && (byte == 0x12 || byte == 0x81), "a field"); return byte == 0x12 ? g_p12 : g_p81; }
int findfield_flex(unsigned char pre, const unsigned char *b, int *loc, int *size) { CHECK(b == g_b && (pre & 0xf0) == 0x40, "the name"); *loc = g_p4; *size = g_n4; return g_p4 == 0; }
unsigned char *MD5(const unsigned char *d, size_t n, unsigned char *md) { CHECK(d == g_b && (long)n == g_size && g_step == 0 && IMP(g_k < g_size, g_b[g_k] == vc_fixed(g_k)), "the signature is that of the corrected program"); g_step = 1; md[0] = 1; md[15] = 2; return md; }
int siggen(const unsigned char *h, unsigned char *sig, int *f) { CHECK(g_step == 1 && sig == g_b + g_size + 3 && h[0] == 1 && h[15] == 2, "the digest is signed"); g_step = 2; *f = g_f; if (g_k >= g_size + 3 && g_k < g_size + 3 + g_sl) { g_old = (unsigned char)nondet_vc_char(); g_b[g_k] = g_old; } g_want = vc_final(g_k); return g_sl; }
static const unsigned char g_head[17] = {'*', '*', 'T', 'I', 'F', 'L', '*', '*', 1, 1, 1, 0x88, 1, 1, 0x19, 0x97};
/* one record of 77 characters for every 32 bytes, a shorter one for the rest, 17 for every page, 11 at the end */
static unsigned vc_textlen(unsigned t) { int r = t & 31; return 77 * (t >> 5) + g_pages * 17 + 11 + (r ? (r << 1) + 13 : 0); }
static int vc_head(int p) {
	int nl = g_n4 < 8 ? g_n4 : 8;
	if (p < 16) return g_head[p]; if (p == 16) return nl; if (p < 25) { p -= 17; return p >= nl ? 0 : g_p4 + p == g_p81 ? PAGES & 255 : -2; }
	if (p < 74) return p == 48 ? 0x73 : p == 49 ? 0x24 : 0; return -3;
}
int vc_put(int c, FILE *f) { c &= 255; int w = vc_head(g_pos); CHECK(g_pos < 78 && (w == -3 ? 1 : w == -2 ? IMP(g_k == g_p4 + g_pos - 17, c == g_b[g_k]) : c == w), "each byte of the header"); if (g_pos >= 74) g_len |= (unsigned)c << 8 * (g_pos - 74); g_pos++; return c; }
void intelhex(FILE *f, const unsigned char *b, int n, unsigned addr) { CHECK(g_step == 2 && g_pos == 78 && b == g_b && n == (int)(g_size + 96) && addr == 0x4000, "the application with its signature, as HEX");
	CHECK(((n + 16383) >> 14) == PAGES, "the signature lies on the last page"); CHECK(g_len == vc_textlen((unsigned)n), "the length of the text"); CHECK(IMP(g_k < n, g_b[g_k] == vc_final(g_k)), "the application's bytes"); g_step = 3; }
#undef fputc
#define fputc(c, f) vc_put((int)(c), f)
#define calloc vc_calloc
#define memcpy vc_cpy
#define free vc_free
#include "export.cpp"
#undef name
#undef calloc
#undef free
HARNESS(h_app) {
	g_size = nondet_vc_ll(); ASSUME(g_size >= 0 && g_size <= 8000000); g_b = (unsigned char *)malloc(g_size + 256); g_src = (unsigned char *)malloc(g_size + 1); ASSUME(g_b != 0 && g_src != 0);
	g_k = nondet_vc_ll(); ASSUME(g_k >= 0 && g_k < g_size + 96); g_old = g_b[g_k];
	g_p12 = (int)nondet_vc_ll(); g_p81 = (int)nondet_vc_ll(); g_p4 = (int)nondet_vc_ll(); g_n4 = nondet_vc_char(); g_sl = nondet_vc_char(); g_f = nondet_vc_char();
	ASSUME((g_p12 == 0 || g_p12 >= 8 && g_p12 <= g_size + 19) && (g_p81 == 0 || g_p81 >= 8 && g_p81 <= g_size - 1) && (g_p4 == 0 || g_p4 >= 8 && g_p4 <= g_size - 8) && g_n4 >= 0 && g_n4 <= 15 && IMP(g_p4 == 0, g_n4 == 0) && g_sl >= 1 && g_sl <= 64 && g_f >= 0 && g_f <= 3);
	for (int i = 0; i < (int)sizeof(header8xk); i++) header8xk[i] = header8xk__init[i]; g_len = 0; g_pages = (int)g_size >> 14; if (g_size & 0x3fff) g_pages++; g_step = g_pos = g_done = 0; gh_reset(); int b0 = g_b[0], b1 = g_b[1]; int t0 = g_p12 ? g_b[g_p12] : 0, t1 = g_p12 ? g_b[g_p12 + 1] : 0;
	int rem = (int)((g_size + 96) & 16383), ok = !(rem && rem < 97 && g_size + 96 > 16384) && b0 == 0x80 && b1 == 0x0f && g_p12 && t0 == 1 && t1 == 4 && g_p81 && g_p4;
	makeapp(g_src, (DWORD)g_size, g_out, 0);
	CHECK(g_done && gh_err == (ok ? 0u : 1u), "an application that is not complete is an error"); CHECK(ok ? g_step == 3 && g_pos == 78 : g_step == 0 && g_pos == 0, "and not written"); REACH();
}
#else
/* g_r[p]: a field begins at p (the least set with 6 in it and, with every field that is not the one asked for, its successor:
 * its definition is unfolded at the positions walked); the bytes behind the program are zero (makeapp's buffer) */
const unsigned char *g_b; unsigned char *g_r; long g_size, g_end; int g_byte, g_mask;
#define VC_WALK CHECK(g_r[pnt - 1] == 1, "a field begins here"); ASSUME(pnt - 1 < g_size); g_end = pnt + 1 + (g_b[pnt] & 15); if ((g_b[pnt] & g_mask) != (g_byte & g_mask)) ASSUME(g_r[g_end] == 1);
#include "export.cpp"
#undef name
static void vc_setup(int mask) {
	g_size = nondet_vc_ll(); ASSUME(g_size >= 6 && g_size <= 8000000); g_b = (unsigned char *)malloc(g_size + 256); g_r = (unsigned char *)malloc(g_size + 256); ASSUME(g_b != 0 && g_r != 0);
	g_byte = (unsigned char)nondet_vc_char(); g_mask = mask; g_end = 6; ASSUME(g_r[6] == 1);
}
HARNESS(h_find) {
	vc_setup(255); int r = findfield((unsigned char)g_byte, g_b);
	if (r) CHECK(r >= 8 && r <= g_size + 1 && g_r[r - 2] == 1 && g_b[r - 2] == 0x80 && g_b[r - 1] == g_byte, "the first field with this type"); else CHECK(g_r[g_end] == 1 && g_b[g_end] != 0x80, "no field has this type"); REACH();
}
HARNESS(h_flex) {
	vc_setup(0xf0); int loc = 77, len = 77, r = findfield_flex((unsigned char)g_byte, g_b, &loc, &len);
	if (r == 0) CHECK(loc >= 8 && loc <= g_size + 1 && g_r[loc - 2] == 1 && g_b[loc - 2] == 0x80 && (g_b[loc - 1] & 0xf0) == (g_byte & 0xf0) && len == (g_b[loc - 1] & 15), "the first field with this type, and its size"); else CHECK(r == 1 && loc == 0 && len == 0 && g_r[g_end] == 1 && g_b[g_end] != 0x80, "no field has this type"); REACH();
}
#endif
#endif
