/* C16 string literals: reduce_string_len (control characters, surrounding quotes) and its inverse escape_string. */
#include "base.h"
#include "str.h"
#define sp_esc(c) ((c) == 'n' || (c) == 'N' ? 10 : (c) == 'r' || (c) == 'R' ? 13 : (c) == 't' || (c) == 'T' ? 9 : (c) == '0' ? 0 : (c) == '#' ? 77 : U8(c))
/* contract of parse_num for a character literal '\x' (verified as C08 unit char; the random '\#' is given a fixed value here) */
int vc_esc(const char *e, int *value) {
	CHECK(e[0] == '\'' && e[1] == '\\' && e[3] == '\'' && e[4] == 0, "the control character is evaluated as a character literal");
	*value = (char)sp_esc(e[2]);
	return 1;
}
#define parse_num vc_esc
char *g_c; /* the text before the call */
#define OC(i) ((unsigned char)g_c[i])
long gi, go, g_q; unsigned char g_want, g_t0, g_tl, g_v;
static inline void sp_reduce_step(void) { /* one character or control character of the original text */
	g_v = OC(gi);
	if (OC(gi) == '\\' && OC(gi + 1)) { gi++; g_v = sp_esc(OC(gi)); } else if (g_v == '"') g_q++;
	if (go == g_k) g_want = g_v;
	if (go == 0) g_t0 = g_v;
	g_tl = g_v; gi++; go++;
}
/* an escape step writes at most two characters */
long g_el; int g_ev;
static inline void sp_escape_step(void) {
	int c = CH(gi), two = c == '"' || c == '\\';
	if (two && g_el == g_k) g_ev = '\\';
	if (g_el + two == g_k) g_ev = c;
	g_el += 1 + two; gi++;
}
long g_len; int g_have, g_fin;
#ifndef NATIVE
void *vc_memmove(void *d, const void *s, size_t n) {
	CHECK(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "memmove stays inside the text");
	/* only the witness character is followed */
	if (g_k >= 1 && (size_t)(g_k - 1) < n) ((char *)d)[g_k - 1] = ((const char *)s)[g_k - 1];
	return d;
}
#define memmove vc_memmove
#ifdef VC_ESCAPE
/* contracts of the expandable buffer (C17), which here collects the witness character of the result */
struct expand_buf g_eb;
expand_buf *eb_init(size_t n) { g_len = 0; g_fin = 0; return &g_eb; }
int eb_append(expand_buf *b, const char *t, size_t n) {
	CHECK(b == &g_eb && !g_fin, "appended to the result");
	if (n == (size_t)-1) n = t[0] == 0 ? 0 : t[1] == 0 ? 1 : t[2] == 0 ? 2 : 9;
	CHECK(__CPROVER_r_ok(t, n), "text appended");
	if (n > 0 && g_len == g_k) g_have = (unsigned char)t[0];
	if (n > 1 && g_len + 1 == g_k) g_have = (unsigned char)t[1];
	if (n > 2 && g_k >= g_len + 2 && (size_t)(g_k - g_len) < n) g_have = (unsigned char)t[g_k - g_len];
	g_len += n;
	return (int)g_len;
}
char *eb_extract(expand_buf *b) { g_fin = 1; return g_s; }
void eb_free(expand_buf *b) { CHECK(g_fin == 1, "freed after use"); g_fin = 2; }
size_t vc_strlen(const char *s) { CHECK(s == g_s, "length of the text"); return g_n; }
#define strlen vc_strlen
#endif
#endif
#include "utils_inc.h"
#ifdef NATIVE
#include "expand_buf.cpp"
#endif
DECL_IN(k)
HARNESS(h_reduce) {
	VC_CHARSET("\"\"\\\\nrt0a' ");
	g_s = IN_STR(0, g_n, 0, 1000000);
	g_k = IN(k, 0, 1000000);
	gi = go = g_q = 0; g_want = g_t0 = g_tl = 0;
#ifdef NATIVE
	for (long i = 0; i < g_n; i++) ASSUME(g_s[i] && g_s[i] != '#');
	g_c = strdup(g_s); g_k = g_n ? g_k % g_n : 0;
	while (OC(gi)) sp_reduce_step();
#elif defined(VC_BOUND)
	g_c = (char *)malloc(g_n + 1); ASSUME(g_c != 0); for (int i = 0; i < VC_BOUND + 1; i++) if (i <= g_n) g_c[i] = g_s[i];
	for (int i = 0; i < VC_BOUND; i++) if (gi <= g_n && OC(gi)) sp_reduce_step();
#else
	g_c = (char *)malloc(g_n + 1); ASSUME(g_c != 0 && g_c[g_n] == 0);
	ASSUME(g_s[0] == g_c[0] && IMP(g_n >= 1, g_s[1] == g_c[1]) && IMP(g_k <= g_n, g_s[g_k] == g_c[g_k])); /* instances of: the same text */
#endif
	size_t r = reduce_string_len(g_s);
	int strip = g_q >= 2 && g_t0 == '"' && g_tl == '"';
	CHECK((long)r == go - 2 * strip, "one character per character or control character, without the surrounding quotes");
	CHECK(g_s[r] == 0, "the result is terminated");
	if (g_k < go - strip && g_k >= strip) CHECK(CH(g_k - strip) == U8(g_want), "every character of the result");
	REACH();
}
HARNESS(h_reduce_string) {
	VC_CHARSET("\"\"\\\\nrt0a' "); g_k = 0;
	g_s = IN_STR(0, g_n, 0, 6);
	CHECK(reduce_string(g_s) == g_s, "reduced in place");
	REACH();
}
HARNESS(h_escape) {
	VC_CHARSET("\"\"\\\\nrt0a' ");
	g_s = IN_STR(0, g_n, 0, 1000000);
	g_k = IN(k, 0, 2000002); gi = 0; g_el = 1; g_ev = '"';
#ifdef NATIVE
	for (long i = 0; i < g_n; i++) ASSUME(g_s[i]);
	g_k %= 2 * g_n + 2;
	while (gi < g_n) sp_escape_step();
	char *r = escape_string(g_s);
	CHECK((long)strlen(r) == g_el + 1, "length of the quoted text");
	if (g_k < g_el) CHECK((unsigned char)r[g_k] == g_ev, "quotes and backslashes are escaped, everything else is copied");
	CHECK(r[g_el] == '"', "the closing quote");
#else
	g_have = -1;
#ifdef VC_BOUND
	for (int i = 0; i < VC_BOUND; i++) if (i < g_n) { ASSUME(g_s[i]); sp_escape_step(); }
#endif
	escape_string(g_s);
	CHECK(g_fin == 2 && g_len == g_el + 1 && gi == g_n, "length of the quoted text");
	CHECK(g_k < g_el ? g_have == g_ev : g_k == g_el ? g_have == '"' : 1, "quotes and backslashes are escaped, everything else is copied");
#endif
	REACH();
}
