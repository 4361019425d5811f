/* C08 numeric and character literals: parse_single_num, conv_generic. */
#include "base.h"
#include "str.h"
#include <limits.h>
#define sp_alnum(c) (sp_alpha(c) || sp_digit(c))
#define sp_bdigit(c, b) ((b) == 16 ? sp_xdigit(c) : (b) == 10 ? sp_digit(c) : (U8(c) == '0' || U8(c) == '1'))
#ifndef NATIVE
long g_from, g_end, g_e; int g_base, g_calls; long long g_v;
#ifdef VC_CONV
/* contract of strtoll: stops at the first character that is not a digit of the base; its value is that of the digits (saturated) */
long long vc_strtoll(const char *s, char **ep, int base) {
	long e = nondet_vc_ll(), o = OFF(s);
	CHECK(SAMEOBJ(s, g_s) && o >= 0 && o <= g_n, "digits are inside the text");
	__CPROVER_assume(e >= o && e <= g_n && !sp_bdigit(CH(e), base));
	__CPROVER_assume(IMP(g_k >= o && g_k < e, sp_bdigit(CH(g_k), base)));
	g_from = o; g_base = base; g_calls++; g_e = e;
	*ep = g_s + e; g_v = nondet_vc_ll();
	__CPROVER_assume(g_v >= 0);
	return g_v;
}
#define strtoll vc_strtoll
char *strndup(const char *s, size_t n) { CHECK((long)n >= 0 && SAMEOBJ(s, g_s) && OFF(s) + (long)n <= g_n, "literal text"); char *r = (char *)malloc(1); __CPROVER_assume(r != 0); return r; }
#else
static bool conv(const char *str, const char *end, int *out, int base) {
	CHECK(PTR_OK(str) && PTR_OK(end) && OFF(end) >= OFF(str), "the digits are inside the text");
	g_from = OFF(str); g_end = OFF(end); g_base = base; g_calls++; g_v = (int)nondet_vc_ll();
	if (nondet_vc_char()) return 0;
	*out = (int)g_v; return 1;
}
#endif
int vc_rand(void) { return (int)nondet_vc_ll(); }
#define rand vc_rand
#endif
#include "parser.cpp"
#ifndef NATIVE
static const char *parse_num_full(const char *expr, int *value, int depth) { return 0; } /* not reached by literals */
char *parse_define(define_t *d) { return 0; }
bool parse_num(const char *e, int *v) { return 0; }
int parse_f(const char *e) { return 0; }
#endif
#if !defined(NATIVE) && !defined(VC_CONV)
/* contracts of the conversions (proved in the conv unit) */
bool conv_hex(const char *str, const char *end, int *out) { return conv(str, end, out, 16); }
static bool conv_dec(const char *str, const char *end, int *out) { return conv(str, end, out, 10); }
static bool conv_bin(const char *str, const char *end, int *out) { return conv(str, end, out, 2); }
#endif
#if !defined(NATIVE) && defined(VC_CONV)
DECL_IN(base) DECL_IN(near) DECL_IN(bits) DECL_IN(delta) DECL_IN(suf)
HARNESS(h_conv) {
	int value = 77, base; g_o = 0;
	g_s = IN_STR(0, g_n, 0, 1000000);
	long start = nondet_vc_ll(), end = nondet_vc_ll();
	ASSUME(start >= 0 && start <= end && end <= g_n);
	g_k = nondet_vc_ll(); ASSUME(g_k >= start && g_k < end);
	g_calls = 0; gh_reset();
	int w = (int)IN(base, 0, 2); bool ok;
	base = w == 0 ? 2 : w == 1 ? 10 : 16;
	ok = w == 0 ? conv_bin(g_s + start, g_s + end, &value) : w == 1 ? conv_dec(g_s + start, g_s + end, &value) : conv_hex(g_s + start, g_s + end, &value);
	CHECK(g_calls == 1 && g_base == base && g_from == start, "the digits are read in the right base");
	if (ok) {
		CHECK(g_v <= UINT_MAX && value == (int)g_v && gh_err == 0, "the value, modulo 2^32");
		CHECK(sp_bdigit(CH(g_k), base), "every character is a digit of the base");
	} else {
		CHECK(gh_err == 1, "a bad literal is reported once");
		CHECK(gh_errcode == (unsigned)(g_e < end ? (base == 16 ? SPASM_ERR_INVALID_HEX_DIGIT : base == 10 ? SPASM_ERR_INVALID_DECIMAL_DIGIT : SPASM_ERR_INVALID_BINARY_DIGIT) : SPASM_ERR_INTEGER_OVERFLOW), "kind of error");
		CHECK(g_e < end || g_v > UINT_MAX, "only a wrong digit or a value beyond 32 bits is rejected");
	}
	value = 77;
	CHECK(!(w == 0 ? conv_bin(g_s + start, g_s + start, &value) : w == 1 ? conv_dec(g_s + start, g_s + start, &value) : conv_hex(g_s + start, g_s + start, &value)), "a literal without digits is rejected");
	REACH();
}
#elif !defined(NATIVE)
HARNESS(h_number) {
	int value = 77; g_o = 0;
	g_s = IN_STR(0, g_n, 1, 1000000);
	char c0 = CH(0);
	__CPROVER_assume(c0 == '$' || c0 == '%' || sp_digit(c0));
	g_k = nondet_vc_ll();
	g_calls = 0; gh_reset();
	program_counter = (unsigned)nondet_vc_ll();
	const char *r = parse_single_num(g_s, &value);
	if (c0 == '$' && !sp_xdigit(CH(1))) {
		CHECK(r == g_s + 1 && value == (int)program_counter && gh_err == 0 && g_calls == 0, "a lone $ is the address counter");
	} else {
		long start = c0 == '$' || c0 == '%' ? 1 : 0, e = g_end;
		CHECK(g_calls == 1 && g_from == start, "the digits after the prefix are converted");
		CHECK(IMP(g_k >= start && g_k < e, sp_alnum(CH(g_k))), "the literal is a run of letters and digits");
		if (start) { CHECK(!sp_alnum(CH(e)), "the run is the longest one"); CHECK(g_base == (c0 == '$' ? 16 : 2), "base of the prefix"); }
		else {
			int x = sp_lower(CH(e)); /* the suffix letter, if any, is not part of the digits */
			if (sp_alnum(CH(e))) {
				CHECK(!sp_alnum(CH(e + 1)) && (x == 'h' || x == 'b' || x == 'd'), "the run is the longest one");
				CHECK(g_base == (x == 'h' ? 16 : x == 'b' ? 2 : 10), "base of the suffix");
				e++;
			} else {
				x = sp_lower(CH(e - 1));
				CHECK(g_base == 10 && x != 'h' && x != 'b' && x != 'd', "decimal without a suffix");
			}
		}
		CHECK(r == 0 || (PTR_OK(r) && OFF(r) == e && value == (int)g_v), "the literal ends after its last letter or digit and has the converted value");
		CHECK(gh_err == 0, "conversion errors are reported by the conversion");
	}
	REACH();
}
#else
HARNESS(h_number) {
	static const char *sets[4] = {"0123456789", "01", "0123456789abcdefABCDEFhH", "01bBdDhH9"};
	long n; VC_CHARSET(sets[IN(cs, 0, 3)]);
	char *d = IN_STR(0, n, 0, 12);
	int pre = (int)IN(pre, 0, 2), tail = (int)IN(tail, 0, 3);
	for (long i = 0; i < n; i++) ASSUME(sp_alnum(d[i]));
	if (pre == 2) ASSUME(n > 0 && sp_digit(d[0]));
	char text[128]; sprintf(text, "%s%s%s", pre == 0 ? "$" : pre == 1 ? "%" : "", d, tail == 0 ? "" : tail == 1 ? " +1" : tail == 2 ? ")" : "*2");
	/* every other trial: a value around a power of two, in the base asked for */
	int near = (int)IN(near, 0, 1), bits = (int)IN(bits, 1, 33), delta = (int)IN(delta, 0, 4), suf = (int)IN(suf, 0, 3);
	if (near) {
		unsigned long long x = (1ULL << (bits > 30 ? 32 : bits)) + delta; x -= 2;
		int b = pre == 0 ? 16 : pre == 1 ? 2 : suf == 0 ? 16 : suf == 1 ? 2 : 10, k = 0; char t[80]; n = 0; d = (char *)malloc(90);
		do { t[k++] = "0123456789abcdef"[x % b]; x /= b; } while (x);
		if (pre == 2 && b == 16) t[k++] = '0';
		while (k) d[n++] = t[--k];
		if (pre == 2) { if (suf < 3) d[n++] = "hbd"[suf]; }
		if (pre == 2 && suf == 2) d[n - 1] = 'd';
		d[n] = 0; sprintf(text, "%s%s%s", pre == 0 ? "$" : pre == 1 ? "%" : "", d, tail == 0 ? "" : tail == 1 ? " +1" : tail == 2 ? ")" : "*2");
	}
	int base = pre == 0 ? 16 : pre == 1 ? 2 : 10; long m = n, bad = 0; unsigned long long v = 0; int value = 77;
	if (pre == 2) { int x = sp_lower(d[n - 1]); if (x == 'h') { base = 16; m--; } else if (x == 'b') { base = 2; m--; } else if (x == 'd') m--; }
	if (pre == 0 && (n == 0 || !sp_xdigit(d[0]))) ASSUME(0);
	ASSUME(!(m > 1 && d[0] == '0' && ((base == 16 && sp_lower(d[1]) == 'x') || (base == 2 && sp_lower(d[1]) == 'b')))); /* C library prefixes */
	if (m == 0) bad = 1;
	for (long i = 0; i < m; i++) { if (!sp_bdigit(d[i], base)) bad = 1; v = v * base + (sp_digit(d[i]) ? d[i] - '0' : sp_lower(d[i]) - 'a' + 10); }
	if (v > 0xFFFFFFFFULL) bad = 1;
	gh_reset();
	const char *r = parse_single_num(text, &value);
	CHECK((r == 0) == (bad != 0) && (gh_err != 0) == (bad != 0), "a literal is accepted exactly when its characters are digits of the base and its value fits 32 bits");
	if (r) { CHECK(r == text + (pre < 2) + n, "the literal ends after its last letter or digit"); CHECK(value == (int)(unsigned)v, "value"); }
}
#endif
/* character literals */
DECL_IN(c) DECL_IN(esc) DECL_IN(close)
HARNESS(h_char) {
	char text[8]; int n = 0, value = 77, esc, close, c, want, rnd = 0;
	c = (int)IN(c, 0, 255); esc = (int)IN(esc, 0, 1); close = (int)IN(close, 0, 1);
	text[n++] = '\''; if (esc) text[n++] = '\\';
	ASSUME(esc || c != '\\');
	text[n++] = (char)c; int e = c == 0 ? n - 1 : n;
	text[n++] = close && c ? '\'' : 0; text[n++] = 0;
	want = (char)c;
	if (esc) switch (c) { case 'n': case 'N': want = 10; break; case 'r': case 'R': want = 13; break; case 't': case 'T': want = 9; break; case '0': want = 0; break; case '#': rnd = 1; break; }
	gh_reset();
	const char *r = parse_single_num(text, &value);
	CHECK(rnd ? value >= 0 && value <= 255 : value == want, "value of the character or escape");
	CHECK(r == text + e + (close && c), "the literal ends after its closing quote, and never beyond the end of the text");
	CHECK((int)gh_showwarn == !(close && c) && gh_err == 0, "a missing quote is warned about");
	REACH();
}
#if defined(NATIVE) && !defined(VC_NOSTUB)
int get_curr_reusable() { return 0; } int get_num_reusables() { return 0; } unsigned search_reusables(int i) { return 0; }
define_t *search_local_defines(const char *n) { return 0; } define_t *search_defines(const char *n) { return 0; } label_t *search_labels(const char *n) { return 0; }
#endif
