/* C15 reading expressions and argument lists from a line: read_expr_impl, extract_arg_string. */
#include "base.h"
#include "str.h"
#define CHARS "  \t;\\\"''()((,,ab=\n"
long g_st, g_m, glq; /* start of the expression, length of the result, last quote that opened a literal */
char buf[256]; char *g_w; const char *g_p; char *g_word;
char g_d[5];
/* ghost reader of well-formed text: g_lit characters of a character literal are left (g_two: one with an escape) */
int g_str, g_esc, g_lit, g_two; long g_depth;
#define DELIM(c) ((c) != 0 && ((c) == (unsigned char)g_d[0] || (g_d[0] && ((c) == (unsigned char)g_d[1] || (g_d[1] && (c) == (unsigned char)g_d[2])))))
#define PLAIN (!g_str && !g_esc && !g_lit)
#define STOPS(c) ((c) == 0 || (PLAIN && ((g_depth == 0 && (DELIM(c) || sp_eocl(c))) || (g_depth == 0 && (c) == ')'))))
#define WELL(i) IMP(PLAIN && CH(i) == '\'', CH((i) + 1) && CH((i) + 2) && (CH((i) + 1) == '\\' ? CH((i) + 3) == '\'' : CH((i) + 2) == '\''))
#ifndef NATIVE
void vc_read_step(long i) {
	int c = CH(i);
	if (g_esc) g_esc = 0;
	else if (g_lit) g_lit--;
	else if (c == '\\') g_esc = 1;
	else if (c == '"') g_str = !g_str;
	else if (!g_str && c == '\'') { g_two = CH(i + 1) == '\\'; g_lit = g_two ? 3 : 2; }
	else if (!g_str && c == '(') g_depth++;
	else if (!g_str && c == ')') g_depth--;
}
#endif
/* the same by a plain loop */
static long sp_read(long i) {
	g_str = g_esc = g_lit = 0; g_depth = 0;
	for (;; ) {
		int c = CH(i);
		if (STOPS(c)) return i;
		if (g_esc) g_esc = 0;
		else if (g_lit) g_lit--;
		else if (c == '\\') g_esc = 1;
		else if (c == '"') g_str = !g_str;
		else if (!g_str && c == '\'') { if (!WELL(i)) return -1; g_lit = CH(i + 1) == '\\' ? 3 : 2; }
		else if (!g_str && c == '(') g_depth++;
		else if (!g_str && c == ')') g_depth--;
		i++;
	}
}
#ifndef NATIVE
/* contracts of the scanners (C14) */
char *vc_skip_ws(const char *p) { CHECK(p == g_p, "blanks are skipped from the start"); return g_s + g_st; }
bool vc_eocl(const char *p) { return p != 0 && sp_eocl(*p); }
char *vc_pbrk(const char *s, const char *d) { CHECK(d == g_d, "the delimiters"); return DELIM((unsigned char)*s) ? (char *)s : (char *)0; }
char *vc_strcpy(char *d, const char *s) { CHECK(s[0] == '0' && s[1] == 0, "the replacement text"); d[0] = '0'; d[1] = 0; return d; }
#define skip_whitespace vc_skip_ws
#define is_end_of_code_line vc_eocl
#define mystrpbrk vc_pbrk
#define strcpy vc_strcpy
bool g_ok; long g_to;
#ifdef VC_ARG
/* contract of read_expr_impl */
bool vc_read(const char ** const ptr, char word[256], const char *delims) {
	CHECK(delims[0] == ',' && delims[1] == 0 && word == g_word && *ptr == g_p, "one argument is read");
	*ptr = g_s + g_to;
	return g_ok;
}
#define read_expr_impl vc_read
#endif
#endif
#include "utils_inc.h"
DECL_IN(o) DECL_IN(d0) DECL_IN(d1) DECL_IN(d2) DECL_IN(nul) DECL_IN(k) DECL_IN(more) DECL_IN(ok) DECL_IN(lng)
static void setup(void) {
	VC_CHARSET(CHARS);
	g_s = IN_STR(0, g_n, 0, 1000000); g_o = IN(o, 0, 1000000);
	NATIVE_ONLY(g_o = g_n ? g_o % (g_n + 1) : 0;)
	ASSUME(g_o <= g_n);
	g_d[0] = (char)IN(d0, 0, 127); g_d[1] = g_d[0] ? (char)IN(d1, 0, 127) : 0; g_d[2] = g_d[1] ? (char)IN(d2, 0, 127) : 0; g_d[3] = 0;
	NATIVE_ONLY(if (IN(lng, 0, 3) == 0) for (long i = 0; i < g_n; i++) if (strchr(";\\\"'(),\r\n", g_s[i])) g_s[i] = 'a';)
	NATIVE_ONLY(for (int i = 0; i < 3; i++) if (g_d[i]) g_d[i] = ",)= \t(,="[g_d[i] & 7];)
	for (int i = 0; i < 3; i++) ASSUME(g_d[i] != '\'' && g_d[i] != '"');
	g_k = IN(k, 0, 254); 
#if defined(VC_NULL)
	g_w = 0;
	CBMC_ONLY(for (int i = 0; i < VC_BOUND; i++) if (i < g_n) ASSUME(CH(i) != '\'');)
#else
	g_w = buf;
#endif

	CBMC_ONLY(g_m = nondet_vc_ll(); ASSUME(g_m >= 0 && g_m <= 255);)
#if defined(NATIVE) || defined(VC_BOUND)
	g_st = g_o; while (sp_blank(CH(g_st))) g_st++;
#else
	g_st = nondet_vc_ll(); ASSUME(g_st >= g_o && g_st <= g_n && !sp_blank(CH(g_st)));
#endif
	g_p = g_s + g_o; glq = g_st - 1; g_str = g_esc = g_lit = g_two = 0; g_depth = 0; gh_reset(); buf[255] = 77;
}
/* every text */
HARNESS(h_read) {
	setup(); const char *p = g_s + g_o;
#if defined(NATIVE) || defined(VC_BOUND)
	long e = sp_read(g_st);
#endif
	bool r = read_expr_impl((const char **)&p, g_w, g_d);
#ifdef NATIVE
#define O(q) ((long)((q) - g_s))
#else
#define O(q) OFF(q)
	CHECK(SAMEOBJ(p, g_s), "still in the text");
#endif
	CHECK(O(p) >= g_st && O(p) <= g_n, "reading stays inside the text");
	CHECK(r == !(sp_eocl(CH(g_st)) || CH(g_st) == ')'), "there is an expression unless the rest of the statement is empty");
	if (!r) CHECK(O(p) == g_st && IMP(g_w != 0, g_w[0] == 0) && gh_showerr == 0, "nothing is read");
	else {
		CHECK(*p == 0 || *p == ')' || sp_eocl(*p) || DELIM((unsigned char)*p) || gh_showerr, "it ends at a delimiter, a closing parenthesis or the end of the code");
#ifndef VC_EXACT
		if (g_w) {
			if (O(p) - g_st > 254 || gh_showerr) CHECK(gh_showerr == 1 && O(p) - g_st == 254 && g_w[0] == '0' && g_w[1] == 0, "a longer expression is a fatal error");
			else {
#ifndef NATIVE
				/* the position of the terminator, chosen before the call */
				ASSUME(g_w[g_m] == 0 && IMP(g_m > 0, g_w[g_m - 1] != 0) && g_m <= O(p) - g_st); long n = g_m;
#else
				long n = strlen(g_w);
#endif
				CHECK(n >= 0 && n <= O(p) - g_st && g_w[n] == 0, "the text read, terminated");
				CHECK(n == 0 || !sp_space(g_w[n - 1]), "without trailing blanks");
				if (g_k < n) CHECK((unsigned char)g_w[g_k] == CH(g_st + g_k), "every character of the text");
				if (g_k >= n && g_k < O(p) - g_st) CHECK(sp_space(CH(g_st + g_k)), "only blanks are left out");
			}
		} else CHECK(gh_showerr == 0, "any length can be skipped");
#endif
	}
#ifndef VC_EXACT
	CHECK(buf[255] == 77, "at most 255 bytes are stored");
#else
	if (r && !gh_showerr) CBMC_ONLY(CHECK(g_str || g_esc || g_lit ? *p == 0 : STOPS((unsigned char)*p), "no delimiter is passed");)
#endif
#if defined(NATIVE) || defined(VC_BOUND)
	if (e >= 0 && r) CHECK(g_w && e - g_st > 254 ? O(p) - g_st == 254 : O(p) == e, "the first delimiter outside strings, literals, escapes and parentheses");
#endif
	REACH();
}
/* arguments */
HARNESS(h_arg) {
	setup(); arg_context_t c; const char *p = g_s + g_o; c.fExpectingMore = IN(more, 0, 1) != 0; bool was = c.fExpectingMore;
	g_p = g_s + g_o;
#ifdef NATIVE
	const char *q = g_s + g_o; char w[256]; bool ok = read_expr_impl(&q, w, ",");
	ASSUME(gh_showerr == 0);
	char *a = extract_arg_string(&p, &c);
	CHECK(IMP(ok, !strcmp(w, c.arg)), "the argument's text");
	long to = q - g_s;
#else
	g_ok = IN(ok, 0, 1) != 0; g_to = nondet_vc_ll(); ASSUME(g_to >= g_o && g_to <= g_n); g_word = c.arg;
	bool ok = g_ok; long to = g_to;
	char *a = extract_arg_string(&p, &c);
#endif
	CHECK(a == (ok ? &c.arg[0] : (char *)0), "an argument, or none");
	CHECK(p == g_s + to + (ok && CH(to) == ','), "the comma after an argument is passed");
	CHECK(ok ? c.fExpectingMore == (CH(to) == ',') && gh_err == 0 : gh_err == was && IMP(was, gh_errcode == SPASM_ERR_VALUE_EXPECTED), "a comma announces another argument, whose absence is an error");
	REACH();
}
