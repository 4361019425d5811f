/* C13 conditional assembly: skip_until, do_if, handle_preop_if, handle_preop. */
#ifdef NATIVE
#include <string>
#include <vector>
#endif
#include "base.h"
#include "str.h"
#define NMAX 1000000
#ifdef NATIVE
static std::vector<std::string> g_ev; static std::vector<int> g_evline; static label_t g_l; opcode *all_opcodes;
label_t *add_label(char *name, int value) { g_ev.push_back(name); g_evline.push_back(line_num); free(name); return &g_l; }
void add_reusable() {}
static char *upto(const char *p) { while (*p && *p != '\n' && *p != '\\') p++; return (char *)p; }
char *handle_directive(const char *p) { return upto(p); }
static define_t g_def = {}; static bool g_isdef, g_defval;
define_t *search_defines(const char *n, bool s) { if (!strcmp(n, "YES")) { g_def.contents = (char *)"1"; return &g_def; } if (!strcmp(n, "EMPTY")) { g_def.contents = 0; return &g_def; } return 0; }
bool parse_num_now(const char *e, int *v) { *v = atoi(e); return true; }
bool parse_num(const char *e, int *v) { while (*e == ' ' || *e == '\t') e++; if (!isdigit(*e)) { SetLastSPASMError(SPASM_ERR_SYNTAX); return false; } *v = atoi(e); return true; }
int StartSPASMErrorSession() { return 1; }
void EndSPASMErrorSession(int) {}
#include "expand_buf.cpp"
#include "pass_one.cpp"
#undef _T
#define _T(x) x
#include "preop.cpp"
#include "utils_inc.h"
/* a random program of nested blocks, and which of its lines are assembled */
static std::string g_text; static std::vector<std::string> w_ev; static std::vector<int> w_line; static int g_line, g_id, g_budget, g_serial;
static int pick(int n) { char nm[12]; sprintf(nm, "r%d", g_serial++); return (int)vc_in(nm, 0, n - 1); }
static void eol(bool oneline) { if (oneline) { g_text += pick(2) ? " \\" : "\\"; return; } static const char *e[4] = {"\n", "\r\n", " ; #endif\n", "\n\n"}; int k = pick(4); g_text += e[k]; g_line += k == 3 ? 2 : 1; }
static void word(const char *w, bool oneline) { if (!oneline && pick(3) == 0) g_text += " \t"; std::string s = w; int c = pick(3); for (size_t i = 0; i < s.size(); i++) if (c == 1 || (c == 2 && (i & 1))) s[i] = toupper(s[i]); g_text += s; }
static void marker(bool live, bool one) { char b[24]; sprintf(b, "m%d", g_id++); if (live) { w_ev.push_back(b); w_line.push_back(g_line); } g_text += b; g_text += ":"; eol(one); }
static bool cond(void) {
	static const char *c[9] = {"#ifndef EMPTY", "#if 1", "#if 0", "#ifdef YES", "#ifdef NO", "#ifndef YES", "#ifndef NO", "#ifdef EMPTY", "#if 27"}; static const bool v[9] = {1, 1, 0, 1, 0, 0, 1, 0, 1};
	int k = pick(9); word(c[k], false); return v[k];
}
static void body(bool live, int depth, bool one);
static void block(bool live, int depth, bool one) {
	size_t at = g_text.size(); bool v = cond();
	/* names keep their case */
	size_t sp = g_text.find(' ', g_text.find('#', at)); for (size_t i = sp; i < g_text.size(); i++) g_text[i] = toupper(g_text[i]);
	bool done = v; eol(one); body(live && v, depth + 1, one);
	for (int n = pick(3); n > 0; n--) { word(pick(2) ? "#elif 1" : "#elif 0", one); bool e = g_text[g_text.size() - 1] == '1'; eol(one); body(live && e && !done, depth + 1, one); done |= e; }
	if (pick(2)) { word("#else", one); g_text += one ? " " : ""; eol(one); body(live && !done, depth + 1, one); }
	word("#endif", one); g_text += one ? " " : ""; eol(one);
}
static void body(bool live, int depth, bool one) { for (int n = pick(3); n > 0 && g_budget > 0; n--, g_budget--) { if (depth < 4 && pick(2)) block(live, depth, one); else marker(live, one); } }
extern "C" void h_any(void) {
	g_text.clear(); w_ev.clear(); w_line.clear(); g_ev.clear(); g_evline.clear(); g_line = 1; g_id = 0; g_budget = 14; g_serial = 0; gh_reset(); error_occurred = false; mode = 0; last_label = 0;
	while (g_budget > 0 && g_serial < 150) { g_budget--; int k = pick(4); if (k == 0) marker(true, false); else if (k == 1) { block(true, 0, true); if (pick(2)) { while (g_text.back() == ' ' || g_text.back() == '\\') g_text.pop_back(); eol(false); } marker(true, false); } else block(true, 0, false); }
	int stray = pick(3); if (stray == 1) g_text += "#endif\n", g_line++; else if (stray == 2) g_text += "#else\n", g_line++;
	marker(true, false);
	std::string t = g_text + '\0';
	run_first_pass(&t[0]);
	if (getenv("VC_DEBUG") && (g_ev != w_ev || g_evline != w_line)) { fprintf(stderr, "<<<%s>>>\n", g_text.c_str()); for (auto &x : g_ev) fprintf(stderr, "%s ", x.c_str()); fprintf(stderr, "\nwant "); for (auto &x : w_ev) fprintf(stderr, "%s ", x.c_str()); for (int x : g_evline) fprintf(stderr, "%d ", x);fprintf(stderr, "want "); for (int x : w_line) fprintf(stderr, "%d ", x); }
	CHECK(g_ev == w_ev, "exactly the branches whose condition comes first are assembled");
	CHECK(g_evline == w_line, "lines are counted through skipped parts");
	CHECK((int)(gh_err + gh_showerr) == (stray != 0), "blocks in order are no error, stray ends are");
}
extern "C" void h_skip(void) { h_any(); }
extern "C" void h_do_if(void) { h_any(); }
extern "C" void h_if(void) { h_any(); }
extern "C" void h_preop(void) { h_any(); }
#else
#include <stdarg.h>
long __CPROVER_uninterpreted_ws(long), __CPROVER_uninterpreted_ne(long), __CPROVER_uninterpreted_nl(long), __CPROVER_uninterpreted_nc(long);
#define WS(p) __CPROVER_uninterpreted_ws(p)
#define NE(p) __CPROVER_uninterpreted_ne(p)
#define NL(p) __CPROVER_uninterpreted_nl(p)
#define NC(p) __CPROVER_uninterpreted_nc(p)
#define WS_OK(p) ASSUME(WS(p) >= (p) && WS(p) <= g_n && !sp_blank(CH(WS(p))) && (WS(p) == (p) ? !sp_blank(CH(p)) : sp_blank(CH(p)) && WS(p) > (p)))
#define NE_OK(p) ASSUME(NE(p) >= (p) && NE(p) <= g_n && !sp_name(CH(NE(p))) && (NE(p) == (p)) == !sp_name(CH(p)))
#define NL_OK(p) ASSUME(NL(p) >= (p) && NL(p) <= g_n && (NL(p) == (p)) == ((p) >= g_n))
#define NC_OK(p) ASSUME(NC(p) >= (p) && NC(p) <= g_n && (NC(p) == (p)) == ((p) >= g_n))
enum { NONE, IF, ELSE, ELIF, ENDIF, ENDCOMMENT, ENDMACRO };
/* which of the block words this is */
static int id(const char *w) {
	if (w[0] != '#') return NONE;
	if ((w[1] | 32) == 'i') return IF;
	if ((w[2] | 32) == 'l') return (w[3] | 32) == 's' ? ELSE : ELIF;
	return (w[4] | 32) == 'i' ? ENDIF : (w[4] | 32) == 'c' ? ENDCOMMENT : ENDMACRO;
}
static int len(int id) { return id == IF ? 3 : id == ELSE || id == ELIF ? 5 : id == ENDIF ? 6 : id == ENDCOMMENT ? 11 : 9; }
char *vc_ws(const char *p) { CHECK(PTR_OK(p), "inside the text"); long o = OFF(p); WS_OK(o); return g_s + WS(o); }
char *vc_ne(const char *p) { CHECK(PTR_OK(p), "inside the text"); long o = OFF(p); NE_OK(o); return g_s + NE(o); }
bool vc_eocl(const char *p) { CHECK(PTR_OK(p), "inside the text"); return sp_eocl(CH(OFF(p))); }
#define skip_whitespace vc_ws
#define skip_to_name_end vc_ne
#define is_end_of_code_line vc_eocl
#ifdef VC_SKIP
/* the specification, one statement at a time: blocks are nested, the first of the words outside a nested block ends the search */
long g_p, g_line, g_le, g_lines; int g_kind, g_level, g_stop, g_w0, g_w1, g_w2, g_nw, g_err;
static void sp_stmt(void) {
	g_kind = nondet_vc_char(); ASSUME(g_kind >= NONE && g_kind <= ENDMACRO);
	ASSUME(g_level < 1999999999); if (g_kind == IF) g_level++;
	else if (g_level > 0 && g_kind == ENDIF) g_level--;
	else if (g_level == 0 && g_kind != NONE && (g_kind == g_w0 || (g_nw > 1 && g_kind == g_w1) || (g_nw > 2 && g_kind == g_w2))) g_stop = 1;
}
bool vc_has(char *p, const char *w, int n) { CHECK(p == g_s + g_p && n == len(id(w)), "each statement is looked at"); return id(w) == g_kind; }
char *vc_nl(const char *p) { CHECK(p == g_s + g_line && g_stop == 0, "line by line"); NL_OK(g_line); g_p = g_line; g_le = NL(g_line); g_line = g_le; g_lines++; return g_s + g_le; }
char *vc_nc(char *p) { CHECK(p == g_s + g_p && g_stop == 0, "statement by statement"); NC_OK(g_p); g_p = NC(g_p); if (nondet_vc_char() == 1) error_occurred = 1; return g_s + g_p; }
#define line_has_word vc_has
#define skip_to_next_line vc_nl
#define next_code_line vc_nc
#define strlen(w) len(id(w))
#include "preop.cpp"
const char *const g_words[5] = {"#else", "#elif", "#endif", "#endcomment", "#endmacro"};
HARNESS(h_skip) {
	g_s = IN_STR(0, g_n, 0, NMAX); ASSUME(g_s[g_n] == 0); g_o = 0; gh_reset(); error_occurred = nondet_vc_char() & 1;
	g_line = nondet_vc_ll(); ASSUME(g_line >= 0 && g_line <= g_n); long from = g_line; g_p = from; g_lines = 0; g_level = g_stop = 0; g_kind = NONE;
	int a = nondet_vc_char(), b = nondet_vc_char(), c = nondet_vc_char(); ASSUME(a >= 0 && a < 5 && b >= 0 && b < 5 && c >= 0 && c < 5); g_nw = nondet_vc_char(); ASSUME(g_nw >= 1 && g_nw <= 3);
	g_w0 = id(g_words[a]); g_w1 = id(g_words[b]); g_w2 = id(g_words[c]);
	line_num = nondet_vc_ll(); ASSUME(line_num >= 0 && line_num < 1000000000); int n0 = line_num, *pn = 0, other = 5; int w = nondet_vc_char() & 3; if (w == 1) pn = &line_num; if (w == 2) pn = &other;
	char *r = skip_until(g_s + from, pn, g_nw, g_words[a], g_words[b], g_words[c]);
	if (g_stop) { CHECK(r == g_s + g_p && gh_err == 0, "the search ends at the first of the words outside nested blocks"); CHECK(pn == 0 || *pn == n0 + g_lines - 1, "the line it is on"); }
	else { CHECK((error_occurred || CH(g_line) == 0) && r == g_s + g_line && gh_err == 1 && gh_errcode == SPASM_ERR_UNMATCHED_IF, "a block that does not end is an error"); CHECK(pn == 0 || *pn == n0 + g_lines, "all lines are counted"); }
	CHECK(IMP(pn != &line_num, line_num == n0) && IMP(pn != &other, other == 5), "only the given line number changes");
	REACH();
}
#else
/* where the search ends: another statement of the text, for each set of words */
int g_kind, g_searches, g_checked, g_handled, g_cond; long g_to, g_from; char *g_ret; int g_lv;
bool vc_has(char *p, const char *w, int n) { CHECK(n == len(id(w)) && p == g_s + g_to, "what the search ended at"); return id(w) == g_kind; }
char *vc_nc(char *p) { CHECK(PTR_OK(p), "inside the text"); long o = OFF(p); NC_OK(o); return g_s + NC(o); }
#define line_has_word vc_has
#define next_code_line vc_nc
#ifdef VC_DOIF
char *skip_until(char *p, int *pn, int argc, ...) {
	va_list a; int m = 0; CHECK(p == g_s + g_from, "the search starts behind the condition"); va_start(a, argc); if (argc > 0) m |= 1 << id(va_arg(a, char *)); if (argc > 1) m |= 1 << id(va_arg(a, char *)); if (argc > 2) m |= 1 << id(va_arg(a, char *)); va_end(a);
	if (pn == 0) { CHECK(m == 1 << ENDIF && g_checked == 0 && g_searches == 0, "a block must have an end"); g_checked++; return g_s + g_to; }
	CHECK(pn == &line_num && m == (1 << ELSE | 1 << ELIF | 1 << ENDIF) && g_checked == 1 && g_searches == 0, "the next branch is searched"); g_searches++; return g_s + g_to;
}
#include "preop.cpp"
char *handle_preop_if(char *p) { CHECK(p == g_s + WS(g_to) + 5 && g_handled == 0, "the condition behind #elif"); g_handled++; return g_ret; }
HARNESS(h_do_if) {
	g_s = IN_STR(0, g_n, 8, NMAX); ASSUME(g_s[g_n] == 0); g_o = 0; gh_reset(); g_searches = g_checked = g_handled = 0; g_from = nondet_vc_ll(); g_to = nondet_vc_ll(); ASSUME(g_from >= 0 && g_from <= g_to && g_to <= g_n);
	g_kind = nondet_vc_char(); ASSUME(g_kind == ELSE || g_kind == ELIF || g_kind == ENDIF || g_kind == NONE); WS_OK(g_to); ASSUME(IMP(g_kind != NONE, CH(WS(g_to)) == '#' && WS(g_to) + 5 <= g_n)); NC_OK(g_to);
	g_ret = g_s + g_n; nIfLevel = (int)nondet_vc_ll(); ASSUME(nIfLevel >= 1 && nIfLevel < 1000000); int lv = nIfLevel; line_num = 3; int cond = nondet_vc_ll();
	char *r = do_if(g_s + g_from, cond);
	CHECK(g_checked == 1, "the block's end is looked for");
	if (cond) CHECK(r == g_s + g_from && g_searches == 0 && nIfLevel == lv, "a true condition: assembly goes on behind it");
	else if (g_kind == ELSE) CHECK(r == g_s + NC(g_to) - 1 && g_searches == 1 && nIfLevel == lv && g_handled == 0, "otherwise the code behind #else");
	else if (g_kind == ELIF) CHECK(r == g_ret && g_handled == 1 && nIfLevel == lv, "otherwise the condition of #elif decides");
	else if (g_kind == ENDIF) CHECK(r == g_s + NC(g_to) - 1 && nIfLevel == lv - 1 && g_handled == 0, "otherwise the code behind #endif, and the block has ended");
	else CHECK(r == g_s + g_to && g_handled == 0, "otherwise all is skipped");
	REACH();
}
#endif
#ifdef VC_IF
int g_ok, g_val, g_num, g_freed; char g_txt[2]; long g_ce;
char *vc_ce(const char *p) { CHECK(p == g_s + g_from, "the condition's end"); return g_s + g_ce; }
char *vc_ndup(const char *s, size_t n) { CHECK(s == g_s + g_from && (long)n == g_ce - g_from, "the condition's text"); return g_txt; }
bool vc_num(const char *e, int *v) { CHECK(e == g_txt && g_num == 0, "the condition is evaluated once"); g_num++; if (g_ok) *v = g_val; return g_ok; }
void vc_free(void *p) { CHECK(p == g_txt && g_freed == 0 && g_num == 1, "released"); g_freed++; }
#define skip_to_code_line_end vc_ce
#define strndup vc_ndup
#define parse_num vc_num
#define free vc_free
#include "preop.cpp"
char *do_if(char *p, int c) { CHECK(p == g_s + g_ce && (c != 0) == (g_ok && g_val != 0) && g_handled == 0 && g_num == 1, "the block is entered if the condition has a value that is not 0"); g_handled++; return g_ret; }
HARNESS(h_if) {
	g_s = IN_STR(0, g_n, 0, NMAX); ASSUME(g_s[g_n] == 0); g_o = 0; gh_reset(); g_handled = g_num = g_freed = 0; g_from = nondet_vc_ll(); g_ce = nondet_vc_ll(); ASSUME(g_from >= 0 && g_from <= g_ce && g_ce <= g_n); g_ret = g_s + g_n; g_ok = nondet_vc_char() & 1; g_val = (int)nondet_vc_ll();
	char *r = handle_preop_if(g_s + g_from);
	if (sp_eocl(CH(g_from))) CHECK(r == g_s + g_from && g_handled == 0 && gh_err == 1 && gh_errcode == SPASM_ERR_EXPRESSION_EXPECTED, "a condition is needed");
	else CHECK(r == g_ret && g_handled == 1 && g_num == 1 && g_freed == 1 && gh_err == 0, "the condition decides");
	REACH();
}
#endif
#ifdef VC_PREOP
/* the word behind '#' is g_names[g_which], or none of them (18) */
const char *const g_names[19] = {"define", "include", "if", "ifdef", "ifndef", "else", "elif", "endif", "undef", "undefine", "comment", "endcomment", "macro", "endmacro", "import", "defcont", "region", "endregion", 0};
int g_which, g_dups, g_frees, g_sess, g_called, g_m; long g_ne, g_arg; char g_w[2], g_nm[2]; define_t g_def; int g_has, g_rem; long g_nameend; int g_argok;
bool vc_same(const char *a, const char *b) { int i; for (i = 0; i < 12; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
int vc_casecmp(const char *a, const char *b) { CHECK(b == g_w || a == g_w, "the word is compared"); const char *k = b == g_w ? a : b; return g_which < 18 && vc_same(k, g_names[g_which]) ? 0 : 1; }
char *vc_ndup(const char *s, size_t n) { if (g_dups++ == 0) { CHECK(s == g_s && (long)n <= g_n && (CH(n) == 0 || sp_space(CH(n))) && IMP(g_k >= 0 && g_k < (long)n, CH(g_k) != 0 && !sp_space(CH(g_k))), "the word reaches to the first space"); g_ne = n; WS_OK(g_ne); g_arg = WS(g_ne); NE_OK(g_arg); ASSUME(g_to >= g_arg); return g_w; } CHECK(s == g_s + g_arg && (long)n == NE(g_arg) - g_arg, "the name"); return g_nm; }
void vc_free(void *p) { CHECK(p == g_w || p == g_nm, "released"); g_frees++; }
define_t *search_defines(const char *n, bool l) { CHECK(n == g_nm, "the name"); return g_has ? &g_def : 0; }
int vc_sess(void) { CHECK(g_sess == 0, "one"); g_sess = 1; return 7; }
void vc_esess(int s) { CHECK(g_sess == 1 && s == 7 && g_called == 1, "ended"); g_sess = 2; }
define_t *add_define(char *n, bool *r, bool l) { return 0; }
void vc_remdef(char *n) { CHECK(n == g_nm, "the name"); g_rem++; }
#define CALL(w) { CHECK(g_called == 0 && p == g_s + g_arg, "what stands behind the word"); g_called = 1; g_m = w; return g_ret; }
char *vc_skip(char *p, int *pn, int argc, const char *const *w) {
	CHECK(g_called == 0 && p == g_s + g_arg && pn == &line_num && g_sess == 1, "the rest of the block is skipped without its messages");
	g_called = 1; g_m = 1 << id(w[0]); if (argc > 1) g_m |= 1 << id(w[1]); if (argc > 2) g_m |= 1 << id(w[2]); return g_s + g_to;
}
#define skip_until(p, pn, n, ...) vc_skip(p, pn, n, (const char *const[]){__VA_ARGS__, 0, 0})
#define strcasecmp vc_casecmp
#define strndup vc_ndup
#define free vc_free
#define StartSPASMErrorSession vc_sess
#define EndSPASMErrorSession vc_esess
#define remove_define vc_remdef
#include "preop.cpp"
char *handle_preop_define(const char *p) CALL(100)
static char *handle_preop_include(char *p) CALL(101)
char *handle_preop_import(char *p) CALL(102)
char *handle_preop_if(char *p) CALL(103)
char *do_if(char *p, int c) { CHECK(g_called == 0 && p == g_s + NE(g_arg), "behind the name"); g_called = 1; g_m = c ? 201 : 200; return g_ret; }
HARNESS(h_preop) {
	g_s = IN_STR(0, g_n, 0, NMAX); ASSUME(g_s[g_n] == 0); g_o = 0; gh_reset(); g_dups = g_frees = g_sess = g_called = g_m = g_rem = 0; 	g_which = nondet_vc_char(); ASSUME(g_which >= 0 && g_which <= 18); ASSUME(g_which != 12 && g_which != 15); /* macro and defcont: not covered here */
	g_k = nondet_vc_ll(); g_to = nondet_vc_ll(); ASSUME(g_to >= 0 && g_to <= g_n); NC_OK(g_to);
	g_kind = nondet_vc_char(); ASSUME(g_kind == ELSE || g_kind == ELIF || g_kind == ENDIF || g_kind == NONE); ASSUME(IMP(g_kind != NONE, CH(g_to) != 0)); g_ret = g_s + g_n; g_has = nondet_vc_char() & 1; g_def.contents = 0; if (nondet_vc_char()) g_def.contents = g_nm; int def = g_has && g_def.contents;
	nIfLevel = (int)nondet_vc_ll(); ASSUME(nIfLevel >= 0 && nIfLevel < 1000000); int lv = nIfLevel;
	last_define = 0;
	char *r = handle_preop(g_s);
	int no = sp_eocl(CH(g_arg)), end = g_kind == ENDIF;
	CHECK(g_frees == g_dups && g_sess != 1, "nothing is kept");
	switch (g_which) {
		case 0: CHECK(g_m == 100 && r == g_ret && nIfLevel == lv, "#define"); break;
		case 1: CHECK(g_m == 101 && r == g_ret && nIfLevel == lv, "#include"); break;
		case 14: CHECK(g_m == 102 && r == g_ret && nIfLevel == lv, "#import"); break;
		case 2: CHECK(g_m == 103 && r == g_ret && nIfLevel == lv + 1, "#if starts a block, its condition decides"); break;
		case 3: case 4:
			if (no) CHECK(r == g_s + g_arg && gh_err == 1 && g_called == 0, "a name is needed");
			else CHECK(g_m == 200 + (g_which == 3 ? def : !def) && r == g_ret && nIfLevel == lv + 1 && gh_err == 0, "#ifdef starts a block, entered if the name is defined; #ifndef the opposite"); break;
		case 5:
			if (lv == 0) CHECK(r == g_s + g_arg && gh_err == 1 && g_called == 0, "#else needs a block");
			else CHECK(g_m == (1 << ELSE | 1 << ELIF | 1 << ENDIF) && gh_err == 0 && r == (end ? g_s + NC(g_to) - 1 : g_s + g_to) && nIfLevel == lv - end, "after a branch that was assembled, #else skips to the end of the block"); break;
		case 6: CHECK((g_m == 1 << ENDIF) && gh_err == (lv == 0) && r == (end ? g_s + NC(g_to) - 1 : g_s + g_to) && nIfLevel == (end && lv > 0 ? lv - 1 : lv), "likewise #elif"); break;
		case 7: CHECK(r == g_s + g_arg && g_called == 0 && gh_err == (lv == 0) && nIfLevel == (lv ? lv - 1 : 0), "#endif ends a block"); break;
		case 8: case 9: if (no) CHECK(r == g_s + g_arg && gh_err == 1 && g_rem == 0, "a name is needed"); else CHECK(g_rem == 1 && r == g_s + NE(g_arg) && gh_err == 0, "#undef removes a definition"); break;
		case 10: CHECK(g_m == 1 << ENDCOMMENT && r == g_s + g_to && nIfLevel == lv, "#comment skips to #endcomment"); break;
		case 18: CHECK(r == g_s + g_arg && gh_err == 1 && gh_errcode == SPASM_ERR_UNKNOWN_PREOP && g_called == 0 && nIfLevel == lv, "other words are an error"); break;
		default: CHECK(r == g_s + g_arg && g_called == 0 && gh_err == 0 && nIfLevel == lv, "marks without effect"); break;
	}
	REACH();
}
#endif
#endif
#endif
