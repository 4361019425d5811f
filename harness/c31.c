/* C31 expansion of expressions: expand_expr_full, expand_expr (utils.cpp). */
#include "base.h"
#include "str.h"
#ifndef RECURSION_LIMIT_SPEC
#define RECURSION_LIMIT_SPEC 20
#endif
DECL_IN(depth) DECL_IN(loc) DECL_IN(n) DECL_IN(lab) DECL_IN(err) DECL_IN(na)
#ifdef NATIVE
#include "expand_buf.cpp"
#include "utils_inc.h"
#include "modp_ascii.cpp"
static list_t g_set; static int g_sets, g_removed; static label_t g_l; static int g_deep;
static define_t mk(const char *c, int na) { define_t d; memset(&d, 0, sizeof d); d.contents = (char *)c; d.num_args = na; d.args[0] = (char *)"p"; return d; }
static define_t d_a = mk("B+1", 0), d_b = mk("\"A\"*L", 0), d_c = mk("", 0), d_n = mk(0, 0), d_s = mk("s+SELF", 0), d_loc = mk("33", 0), d_m = mk("B", 1), d_i = mk("LOC", 0);
label_t *search_labels(const char *n) { return !strcmp(n, "L") || !strcmp(n, "NONE") || !strcmp(n, "A") ? &g_l : 0; }
define_t *search_defines(const char *n, bool local) { return !strcmp(n, "A") ? &d_a : !strcmp(n, "B") ? &d_b : !strcmp(n, "EMPTY") ? &d_c : !strcmp(n, "NONE") ? &d_n : !strcmp(n, "SELF") ? &d_s : !strcmp(n, "M") ? &d_m : !strcmp(n, "LOCIN") ? &d_i : local && !strcmp(n, "LOC") ? &d_loc : 0; }
define_t *search_local_defines(const char *) { return 0; }
list_t *add_arg_set() { g_sets++; return &g_set; }
void remove_arg_set(list_t *l) { if (l) { if (l != &g_set) abort(); g_removed++; } }
bool parse_num(const char *e, int *v) { char *p; *v = (int)strtol(e, &p, 10); return *p == 0; }
int StartSPASMErrorSession() { return 1; }
void EndSPASMErrorSession(int) {}
void add_arg(char *n, char *v, list_t *) { free(n); free(v); }
extern "C" void h_expand(void) {
	static const char *tok[] = {"A", "B", "EMPTY", "NONE", "L", "LOC", "LOCIN", "M(1)", "M", "x1", "a.b_c!", "12", "AB", "BB", "\"A\"", "\"A\\\"B\"", "\"\"", "\"A\nB\"", "\"\\\\\"", "\"L A,B", "\"A\\", "+", "-", "*", "(", ")", ",", " ", "\t", "$", "#", "$1A", ":", "'", "<<", "&&", "\\", "\\\\", "/", "%", "^", "|", "=", "{", "@", "\r", "\n", ";", "~"};
	static const int NT = sizeof tok / sizeof *tok;
	char text[400] = "", want[1500] = "", lab[16], b[40], k[8]; int n = (int)IN(n, 0, 14), lv = (int)IN(lab, -2147483647 - 1, 2147483647), local = (int)IN(loc, 0, 1), prev = 0, ms = 0; g_l.value = lv; sprintf(lab, "%d", lv); sprintf(b, "\"A\"*%s", lab);
	gh_reset(); g_sets = g_removed = 0; error_occurred = false;
	if (IN(depth, 0, 15) == 0) { char *r = expand_expr("1+SELF", local != 0); CHECK(gh_err == 1 && gh_errcode == SPASM_ERR_RECURSION_DEPTH, "a macro that contains itself is an error"); free(r); return; }
	for (int i = 0; i < n; i++) {
		sprintf(k, "t%d", i); int x = (int)vc_in(k, 0, NT - 1); const char *t = tok[x]; int nm = is_name_char(*t), st = *t == '"';
		if ((nm && prev == 1) || (st && prev == 2) || (*t == '(' && prev == 3)) { strcat(text, "+"); strcat(want, "+"); }
		prev = st ? 2 : !strcmp(t, "M") ? 3 : (nm || isalnum((unsigned char)t[strlen(t) - 1])) && t[strlen(t) - 1] != ')' ? 1 : 0;
		strcat(text, t);
		if (!strcmp(t, "A")) { strcat(want, b); strcat(want, "+1"); } else if (!strcmp(t, "B")) strcat(want, b); else if (!strcmp(t, "EMPTY")) ; else if (!strcmp(t, "NONE") || !strcmp(t, "L")) strcat(want, lab);
		else if (!strcmp(t, "LOC") || !strcmp(t, "LOCIN")) strcat(want, local ? "33" : "LOC"); else if (!strcmp(t, "M(1)") || !strcmp(t, "M")) { strcat(want, b); ms++; } else strcat(want, t);
		if (!strcmp(t, "M")) { strcat(text, "+"); strcat(want, "+"); prev = 0; }
		if (st && t[strlen(t) - 1] != '"') break;
	}
	char *r = expand_expr(text, local != 0);
	CHECK(!strcmp(r, want), "defines and labels are replaced, everything else is kept"); CHECK(gh_err == 0 && gh_showerr == 0, "no error"); CHECK(g_sets == ms && g_removed == ms, "the arguments of a call are gone behind it"); free(r);
}
extern "C" void h_top(void) { h_expand(); }
#else
/* The text is g_s.  g_cur: how much of it has been dealt with; g_q: where the string literal at g_cur has been scanned to;
 * g_st: 0 = no name read, 1 = name read, 2 = its replacement is written, 3 = done */
long g_cur, g_q, g_ne, g_dlen; int g_st, g_strdone, g_defs, g_labs, g_hasdef, g_haslab, g_rm, g_stop, g_depth, g_args, g_fmt, g_texts, g_init, g_extr, g_ebfree, g_full, g_val; bool g_sl; char *g_fmtbuf; char g_dup[4], g_cont[4], g_txt[4]; define_t g_def; label_t g_lab; list_t g_set; expand_buf g_buf;
#define USABLE (g_hasdef && g_def.contents != 0)
#define STEP() { CHECK(CH(g_q) != '"' && CH(g_q) != 0, "a string ends at its closing quote"); g_q += CH(g_q) == '\\' && CH(g_q + 1) != 0 ? 2 : 1; }
#define START() { g_st = 0; g_strdone = 0; g_q = g_cur + 1; }
static bool inrange(long b, long n) { return g_k >= b && g_k < b + n; }
int vc_append(expand_buf_t *buf, const char *text, size_t len) {
	CHECK(buf == &g_buf && !g_stop, "written to the result");
	if (text == g_dup) { CHECK(g_st == 1 && g_defs == 1 && !USABLE && g_labs == 1 && !g_haslab && len == (size_t)g_dlen, "a name that is neither define nor label stays"); g_cur += g_dlen; g_st = 2; }
	else if (SAMEOBJ(text, g_s)) {
		CHECK(OFF(text) == g_cur && len <= (size_t)(g_n - g_cur), "the text is copied in order, nothing left out or repeated"); CHECK(g_st != 1 && g_st != 2, "a name is dealt with before what follows it");
		if (len > 0 && CH(g_cur) == '"' && !g_strdone && g_st == 0) { CHECK(g_q >= 0 && g_q <= g_n && (CH(g_q) == 0 || CH(g_q) == '"') && g_cur + (long)len == g_q + (CH(g_q) == '"'), "a string literal is copied whole"); g_strdone = 1; }
		else { CHECK(IMP(inrange(g_cur, (long)len), CH(g_k) != 0 && !sp_name(CH(g_k))), "names are looked up, not copied"); CHECK(IMP(inrange(g_cur, (long)len), CH(g_k) != '"' || (len == 1 && g_strdone && g_st == 0)), "string literals are recognised"); }
		g_cur += (long)len;
	}
	else { CHECK(text == g_fmtbuf && g_fmt == 1 && g_st == 1 && g_labs == 1 && g_haslab && len == (size_t)-1, "a label's value"); g_cur += g_dlen; g_st = 2; }
	return 0;
}
char *vc_nameend(const char *p) {
	CHECK(p == g_s + g_cur, "the name at this place"); g_ne = nondet_vc_ll(); ASSUME(g_ne >= g_cur && g_ne <= g_n && !sp_name(CH(g_ne)) && IMP(g_ne > g_cur, sp_name(CH(g_cur))) && IMP(inrange(g_cur, g_ne - g_cur), sp_name(CH(g_k)))); return g_s + g_ne;
}
char *vc_strndup(const char *p, size_t n) { CHECK(p == g_s + g_cur && g_st == 0 && (long)n == g_ne - g_cur && n > 0, "the whole name"); g_dlen = (long)n; g_st = 1; g_defs = g_labs = g_hasdef = g_haslab = g_rm = g_args = g_fmt = 0; return g_dup; }
define_t *vc_defines(const char *n, bool local) { CHECK(n == g_dup && g_st == 1 && g_defs == 0 && (local != 0) == (g_sl != 0), "defines are looked up first, arguments too if asked for"); g_defs = 1; if (nondet_vc_char()) { g_hasdef = 1; return &g_def; } return 0; }
label_t *vc_labels(const char *n) { CHECK(n == g_dup && g_st == 1 && g_defs == 1 && !USABLE && g_labs == 0, "then labels"); g_labs = 1; if (nondet_vc_char()) { g_haslab = 1; return &g_lab; } return 0; }
char *vc_args(const char *p, define_t *d, list_t **set) {
	CHECK(p == g_s + g_ne && d == &g_def && g_st == 1 && USABLE && g_def.num_args > 0 && g_args == 0, "the arguments follow the macro's name"); g_args = 1;
	if (!nondet_vc_char()) { g_stop = 1; return 0; }
	long e = nondet_vc_ll(); ASSUME(e >= g_ne && e <= g_n); *set = &g_set; g_cur = e; return g_s + e;
}
void vc_rec_expand_expr_full(const char *e, expand_buf *b, int depth, bool local) {
	CHECK(e == g_cont && b == &g_buf && depth == g_depth + 1 && (local != 0) == (g_sl != 0) && g_st == 1 && USABLE && g_args == (g_def.num_args > 0), "the contents are expanded in the name's place, one level down");
	if (g_def.num_args <= 0) g_cur = g_ne; g_st = 2; if (nondet_vc_char()) error_occurred = true;
}
void vc_rmset(list_t *l) { CHECK(g_rm == 0 && g_st == 2 && l == (g_args ? &g_set : 0), "a call's arguments are gone behind it"); g_rm = 1; }
void vc_free(void *p) { CHECK(p == g_dup && (g_st == 2 || (g_stop && g_st == 1)) && g_rm == (USABLE && !g_stop), "the name is released when it is dealt with"); g_st = 3; }
int vc_fmt(char *b, size_t n, const char *f, int v) { CHECK(g_st == 1 && g_haslab && g_fmt == 0 && n >= 12 && __CPROVER_w_ok(b, n) && f[0] == '%' && f[1] == 'd' && f[2] == 0 && v == g_val, "the label's value in decimal, all digits of it"); g_fmt = 1; g_fmtbuf = b; return 1; }
/* the libraries' strchr for sets of up to 23 characters */
char *vc_strchr(const char *s, int c) {
#define VC_C(i) if (s[i] == (char)c) return (char *)s + i; if (s[i] == 0) return 0;
	VC_C(0) VC_C(1) VC_C(2) VC_C(3) VC_C(4) VC_C(5) VC_C(6) VC_C(7) VC_C(8) VC_C(9) VC_C(10) VC_C(11) VC_C(12) VC_C(13) VC_C(14) VC_C(15) VC_C(16) VC_C(17) VC_C(18) VC_C(19) VC_C(20) VC_C(21) VC_C(22) VC_C(23)
	CHECK(0, "strchr model: at most 23 characters"); return 0;
}
expand_buf *vc_init(size_t n) { CHECK(g_init == 0, "one result"); g_init = 1; return &g_buf; }
char *vc_extract(expand_buf *b) { CHECK(b == &g_buf && g_full == 1 && g_extr == 0 && g_ebfree == 0, "the text of the result, when it is complete"); g_extr = 1; return g_txt; }
void vc_ebfree(expand_buf *b) { CHECK(b == &g_buf && g_extr == 1 && g_ebfree == 0, "released after its text was taken"); g_ebfree = 1; }
#define eb_append vc_append
#define skip_to_name_end vc_nameend
#define strndup vc_strndup
#undef search_defines
#define search_defines(...) VCSEL_2(vc_defines, __VA_ARGS__, true)
#define search_labels vc_labels
#define parse_args vc_args
#define remove_arg_set vc_rmset
#define snprintf(b, n, f, v) vc_fmt(b, n, f, v)
#define strchr vc_strchr
#define free vc_free
#define eb_init vc_init
#define eb_extract vc_extract
#define eb_free vc_ebfree
#ifdef VC_TOP
static void expand_expr_full(const char *, expand_buf *, int, bool);
#endif
#include "utils.cpp"
#undef free
#ifdef VC_TOP
static void expand_expr_full(const char *e, expand_buf *b, int depth, bool local) { CHECK(e == g_s && b == &g_buf && depth == 0 && (local != 0) == (g_sl != 0) && g_full == 0, "the text is expanded, from level zero"); g_full = 1; }
size_t strlen(const char *s) { CHECK(s == g_s, "the text"); return (size_t)g_n; }
HARNESS(h_top) {
	g_n = nondet_vc_ll(); ASSUME(g_n >= 0 && g_n < 0x7ffffff0); g_s = (char *)malloc(4); g_sl = nondet_vc_char() & 1; g_init = g_extr = g_ebfree = g_full = 0;
	char *r = expand_expr(g_s, g_sl); CHECK(r == g_txt && g_extr == 1 && g_ebfree == 1 && g_full == 1, "the expansion's text is returned"); REACH();
}
#else
HARNESS(h_expand) {
	g_s = IN_STR(0, g_n, 0, 0x7ffffff0); g_k = nondet_vc_ll(); gh_reset(); g_cur = g_ne = g_dlen = 0; g_q = 1; g_st = g_strdone = g_stop = 0; error_occurred = nondet_vc_char() & 1; bool had = error_occurred;
	g_depth = (int)IN(depth, 0, RECURSION_LIMIT_SPEC + 1); g_sl = nondet_vc_char() & 1; g_def.num_args = (int)IN(na, 0, MAX_ARGS); g_def.contents = 0; if (nondet_vc_char()) g_def.contents = g_cont; g_lab.value = g_val = (int)IN(lab, -2147483647 - 1, 2147483647);
	expand_expr_full(g_s, &g_buf, g_depth, g_sl);
	if (g_depth > RECURSION_LIMIT_SPEC) CHECK(gh_err == 1 && gh_errcode == SPASM_ERR_RECURSION_DEPTH && g_cur == 0, "expansion that goes too deep is an error");
	else { CHECK(gh_err == 0, "no error"); CHECK(g_cur >= 0 && g_cur <= g_n && (g_stop || error_occurred || CH(g_cur) == 0), "all of the text is dealt with"); CHECK(g_st == 0 || g_st == 3, "the last name too"); }
	REACH();
}
#endif
#endif
