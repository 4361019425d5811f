/* C28 upper-case copies of names: modp_toupper_copy, strup. */
#include "base.h"
#include "str.h"
#define NMAX 1000000
DECL_IN(k) DECL_IN(guard)
#ifdef VC_STRUP
long g_len; char *g_dst; int g_calls;
#ifndef NATIVE
size_t vc_strlen(const char *s) { CHECK(s == g_s, "length of the name"); return g_n; }
#define strlen vc_strlen
/* contract of modp_toupper_copy */
void vc_toupper(char *d, const char *s, size_t n) {
	CHECK(s == g_s && (long)n == g_n && __CPROVER_w_ok(d, n + 1), "the copy has room for the name and its end");
	g_calls++; g_dst = d;
}
#define modp_toupper_copy vc_toupper
#else
#include "modp_ascii.cpp"
#endif
#include "utils_inc.h"
#else
#include "modp_ascii.cpp"
#endif
#ifdef VC_STRUP
HARNESS(h_strup) {
	g_s = IN_STR(0, g_n, 0, NMAX); g_k = IN(k, 0, NMAX);
#ifdef NATIVE
	for (long i = 0; i < g_n; i++) ASSUME(g_s[i]);
#endif
	char *r = strup(g_s);
#ifdef NATIVE
	CHECK(r != g_s && (long)strlen(r) == g_n, "a copy of the same length");
	for (long i = 0; i < g_n; i++) CHECK((unsigned char)r[i] == sp_upper((unsigned char)g_s[i]), "letters become upper case, everything else stays");
#else
	CHECK(g_calls == 1 && r == g_dst && r != g_s, "the upper-case copy is returned");
#endif
	REACH();
}
#else
HARNESS(h_upper) {
	g_s = IN_STR(0, g_n, 0, NMAX); g_k = IN(k, 0, NMAX);
	char *d = (char *)malloc(g_n + 1); ASSUME(d != 0);
	CBMC_ONLY(ASSUME(g_k < g_n || g_n == 0);) NATIVE_ONLY(if (g_n) g_k %= g_n;)
	char was = g_n ? g_s[g_k] : 0;
	modp_toupper_copy(d, g_s, (size_t)g_n);
	CHECK(d[g_n] == 0, "the copy is terminated");
	if (g_n) CHECK((unsigned char)d[g_k] == sp_upper((unsigned char)was) && g_s[g_k] == was, "letters become upper case, everything else stays, the original is unchanged");
	REACH();
}
#endif
