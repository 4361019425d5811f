/* C30 data directives: parse_emit_string, extract_arg_string. */
#ifdef NATIVE
#include <string>
#include <vector>
#endif
#include "base.h"
#include "str.h"
#ifdef NATIVE
/* one item per element: B:byte, N<type>:value, P<type>:text, M error */
static std::vector<std::string> g_ev, w_ev; static std::string g_text; static std::vector<std::string> g_defs; static int g_fatal, g_errs, g_depth, g_serial; static define_t g_d; static char g_c[64];
static void ev(std::vector<std::string> &v, const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); v.push_back(b); }
int write_out(int v) { ev(g_ev, "B%d", v & 255); return v; }
void write_arg(int v, arg_type t, int s, int o) { ev(g_ev, "N%d:%d,%d,%d", t, v, s, o); }
void add_pass_two_expr(char *e, arg_type t, int s, int o) { ev(g_ev, "P%d:%s,%d,%d", t, e, s, o); }
bool parse_num(const char *e, int *v) { g_fatal = 0; if (*e == '\'') { *v = e[1] == '\\' ? (e[2] == 'n' ? 10 : e[2] == '0' ? 0 : e[2]) : e[1]; return true; } if (isdigit(*e) || *e == '-') { *v = atoi(e); return true; } if (*e == 'F') return false; g_fatal = 1; return false; }
int StartSPASMErrorSession() { g_errs = 0; return ++g_depth; } bool IsSPASMErrorSessionFatal(int) { return g_fatal; } void ReplaySPASMErrorSession(int, bool) { if (g_fatal || g_errs || gh_err) ev(g_ev, "ERR"), gh_err = 0; g_fatal = 0; } void ReplayFatalSPASMErrorSession(int) {} void EndSPASMErrorSession(int) { g_depth--; g_fatal = 0; }
bool IsErrorInSPASMErrorSession(int, DWORD) { return false; } void AddSPASMErrorSessionAnnotation(int, LPCTSTR, ...) {}
static int g_isdef;
define_t *search_defines(const char *n, bool) { if (*n != 'M') return 0; g_d.name = (char *)"M"; g_d.contents = g_c; strcpy(g_c, n + 1); return &g_d; }
char *parse_define(define_t *d) { static const char *e[4] = {0, "7", "8,9", "\"xy\",F1"}; const char *s = e[d->contents[0] & 3]; if (!s) return 0; g_fatal = 0; return strdup(s); }
void remove_arg_set(list_t *) {}
#include "utils_inc.h"
#define parse_args vc_pa
char *vc_pa(const char *p, define_t *, list_t **) { return (char *)p; }
#include "directive.cpp"
static int pick(int n) { char nm[12]; sprintf(nm, "r%d", g_serial++); return (int)vc_in(nm, 0, n - 1); }
extern "C" void h_any(void) {
	g_ev.clear(); w_ev.clear(); g_text.clear(); gh_reset(); g_depth = g_fatal = g_errs = g_serial = 0; error_occurred = false; mode = pick(2) ? MODE_NORMAL : pick(2) ? MODE_LIST : MODE_LIST | MODE_NORMAL; stats_datasize = 100; program_counter = 0x4000; exit_code = 0;
	static const ES_TYPE ty[3] = {ES_BYTE, ES_WORD, ES_LONG}; static const arg_type at[3] = {ARG_NUM_8, ARG_NUM_16, ARG_NUM_24}; int t = pick(3), n = pick(6), size = 0;
	for (int i = 0; i < n; i++) {
		if (i) g_text += pick(2) ? "," : " , ";
		switch (pick(5)) {
			case 0: { g_text += '"'; int k = pick(5); for (int j = 0; j < k; j++) { static const char *c[9] = {"\\0", "a", ",", ";", "\\n", "\\\"", " ", "'", "\\\\"}; static const int v[9] = {0, 'a', ',', ';', 10, '"', ' ', '\'', '\\'}; int q = pick(9); g_text += c[q]; ev(w_ev, "B%d", v[q]); size++; } g_text += '"'; break; }
			case 1: { int v = pick(140000) - 70000; g_text += std::to_string(v); ev(w_ev, "N%d:%d,0,0", at[t], v); size += t + 1; break; }
			case 2: { std::string u = "F" + std::to_string(pick(9)); g_text += u; ev(w_ev, "P%d:%s,0,0", at[t], u.c_str()); size += t + 1; break; }
			case 3: { int k = pick(4); g_text += "M" + std::to_string(k); if (k == 0) ev(w_ev, "ERR"); if (k == 1) ev(w_ev, "N%d:7,0,0", at[t]), size += t + 1; if (k == 2) ev(w_ev, "N%d:8,0,0", at[t]), ev(w_ev, "N%d:9,0,0", at[t]), size += 2 * (t + 1); if (k == 3) ev(w_ev, "B120"), ev(w_ev, "B121"), ev(w_ev, "P%d:F1,0,0", at[t]), size += 2 + t + 1; break; }
			default: if (pick(2)) { g_text += "X1"; ev(w_ev, "ERR"); } else { g_text += "\"ab\"+1"; ev(w_ev, "ERR"); } break;
		}
	}
	static const char *e[4] = {"", " ; x,1", "\n2,3", " \\ 4"}; int k = pick(4); g_text += e[k];
	std::string s = g_text + '\0';
	char *r = parse_emit_string(&s[0], ty[t], NULL);
	if (getenv("VC_DEBUG") && g_ev != w_ev) { fprintf(stderr, "<<%s>>\n", g_text.c_str()); for (auto &x : g_ev) fprintf(stderr, "%s ", x.c_str()); fprintf(stderr, "\nwant "); for (auto &x : w_ev) fprintf(stderr, "%s ", x.c_str()); }
	CHECK(g_ev == w_ev, "each item is emitted once and in order");
	CHECK(program_counter == 0x4000 + (unsigned)size && stats_datasize == 100 + (unsigned)size, "the location advances by what is emitted");
	CHECK(is_end_of_code_line(skip_whitespace(r)) , "all items are read"); CHECK(g_depth == 0, "error sessions are closed");
}
extern "C" void h_emit(void) { h_any(); }
extern "C" void h_item(void) { h_any(); }
extern "C" void h_dir(void) { h_any(); }
#else
#define MEMBER(T, m) ((T *)0)->m
#ifdef VC_EMIT
enum { OPEN, STR, STRBAD, NUM, LATER, MACRO, EMPTYM, UNKNOWN, BADCALL };
/* the current item: what it is, what is due, what was done */
int g_item, g_first, g_type, g_len, g_val, g_w, g_done, g_in, g_inner, g_replayed, g_argset, g_freed, g_has, g_seterr, g_nargs; unsigned g_pc, g_data; char *g_word, *g_ne, *g_next; char g_exp[2], g_x[4]; define_t g_def; void *g_target; list_t *g_list;
#define W (g_type == ES_BYTE ? 1u : g_type == ES_WORD ? 2u : g_type == ES_LONG ? 3u : 0u)
#define DATA (g_type == ES_BYTE || g_type == ES_WORD || g_type == ES_LONG)
/* nothing of the last item is left to do */
#define SETTLED (g_in == 0 && g_inner == 0 && g_argset == 0 && (g_first || (g_item == STR && DATA ? g_w == (mode & (MODE_NORMAL | MODE_LIST) ? g_len : 0) : g_item == STR && g_target == 0 ? g_done == 0 : g_item == OPEN || g_done == 1)))
static void add(unsigned n) { g_pc += n; g_data += n; }
char *extract_arg_string(const char **const p, arg_context_t *c) {
	if (g_item == MACRO && *p == g_exp) { if (nondet_vc_char()) return 0; return g_x; } /* a look at the expansion */
	CHECK(SETTLED, "each item is dealt with once");
	CHECK(program_counter == g_pc && stats_datasize == g_data, "the location is that behind the items so far");
	g_first = 0; g_done = g_w = g_replayed = g_freed = g_seterr = g_nargs = g_len = 0; g_item = OPEN; gh_err = 0; *p = g_s + (unsigned char)nondet_vc_char();
	if (nondet_vc_char() == 0) return 0;
	g_word = c->arg; g_val = (int)nondet_vc_ll(); g_item = nondet_vc_char(); ASSUME(g_item >= STR && g_item <= BADCALL);
	if (g_item == STR || g_item == STRBAD) { ASSUME(c->arg[0] == '"'); } else { ASSUME(c->arg[0] != '"'); }
	ASSUME(IMP(g_type == ES_FCREATE, g_item != LATER));
	if (g_item == STR) { g_len = nondet_vc_char(); ASSUME(g_len >= 0 && g_len < 250); if (DATA) add(g_len); }
	if (g_item == NUM || g_item == LATER) add(W);
	return g_word;
}
char *vc_next(char *p, const char *d) { CHECK(p == g_word && (g_item == STR || g_item == STRBAD), "the string's end"); char *q = p + 3; if (g_item == STR) ASSUME(*q == 0); else ASSUME(*q != 0); return q; }
size_t reduce_string_len(char *p) { CHECK(p == g_word && g_item == STR, "the string's characters"); return g_len; }
int write_out(int v) { CHECK(g_item == STR && DATA && g_w < g_len && v == g_word[g_w] && (mode & (MODE_NORMAL | MODE_LIST)), "the string's characters in order"); g_w++; return v; }
void vc_print(void *f, const char *fmt, const void *v) {
	CHECK(g_done == 0 && g_type == ES_ECHO && f == g_target && f != 0, "echoed once to where it goes");
	if (fmt[0] == '(') CHECK(g_item == STRBAD || g_item == UNKNOWN || g_item == BADCALL, "what has no value"); else if (fmt[1] == 's') { CHECK(g_item == STR && v == g_word, "the string"); } else { CHECK(fmt[1] == 'd' && g_item == NUM && (int)(long)v == g_val, "the value"); }
	g_done++;
}
void vc_app(expand_buf_t *b, const char *s, int n) { CHECK(g_done == 0 && g_type == ES_FCREATE && (void *)b == g_target, "appended once"); CHECK(IMP(g_item == STR, s == g_word), "the string"); CHECK(g_item != LATER && g_item != MACRO, "what has text"); g_done++; }
bool parse_num(const char *e, int *v) { CHECK(e == g_word && g_in == 1 && g_item >= NUM, "the item's value"); if (g_item == NUM) *v = g_val; return g_item == NUM; }
void write_arg(int v, arg_type t, int s, int o) { CHECK(g_done == 0 && g_item == NUM && v == g_val && s == 0 && o == 0 && t == (g_type == ES_BYTE ? ARG_NUM_8 : g_type == ES_WORD ? ARG_NUM_16 : ARG_NUM_24) && DATA && program_counter + W == g_pc, "the value in the directive's size, where it stands"); g_done++; }
void add_pass_two_expr(char *e, arg_type t, int s, int o) { CHECK(g_done == 0 && g_item == LATER && e == g_word && s == 0 && o == 0 && t == (g_type == ES_BYTE ? ARG_NUM_8 : g_type == ES_WORD ? ARG_NUM_16 : ARG_NUM_24) && DATA && program_counter + W == g_pc, "the expression for pass two, where it stands"); g_done++; }
int StartSPASMErrorSession(void) { CHECK((g_in == 0 && g_done == 0 && g_item != STR) || (g_item == MACRO && g_inner == 0), "a session per item"); if (g_in == 0) { g_in = 1; return 7; } g_inner = 1; return 9; }
bool IsSPASMErrorSessionFatal(int s) { CHECK((s == 7 && g_in == 1) || (s == 9 && g_inner == 1), "the item's session"); if (s == 9) return nondet_vc_char() & 1; return g_item != LATER || g_type == ES_FCREATE; }
void ReplaySPASMErrorSession(int s, bool f) { CHECK(s == 7 && g_in == 1 && f == 0, "the item's session"); g_replayed = 1; if (g_item == EMPTYM || g_item == UNKNOWN || g_item == BADCALL || g_item == STRBAD) { CHECK(g_done <= 1, "once"); g_done = 1; } }
void ReplayFatalSPASMErrorSession(int s) { CHECK(s == 7 && g_in == 1 && g_item == LATER, "the item's session"); if (!DATA) g_done = 1; }
void EndSPASMErrorSession(int s) { if (s == 9) { CHECK(g_inner == 1, "the session"); g_inner = 0; } else { CHECK(s == 7 && g_in == 1, "the item's session"); CHECK(IMP(g_item == NUM || g_item == UNKNOWN || g_item == STRBAD || g_item == BADCALL || g_item == EMPTYM, g_replayed), "its errors are reported"); g_in = 0; if (g_item == NUM && g_type == ES_ECHO && g_target == 0) g_done = 1; } }
bool IsErrorInSPASMErrorSession(int s, DWORD e) { if (e == SPASM_ERR_EXCEEDED_RECURSION_LIMIT && (nondet_vc_char() & 1)) { g_done = 1; return 1; } return 0; }
void vc_annot(int s) { CHECK(s == 7 && g_item == MACRO, "the item's session"); }
bool vc_read(char **p, char *w, const char *d) {
	if (d[0] == '(') { CHECK(*p == g_word && g_item >= MACRO, "the macro's name"); *p = g_word + 4; g_ne = *p; if (g_item != BADCALL || nondet_vc_char()) w[0] = 'n'; return 1; }
	CHECK(*p == g_ne && d[0] == ')' && w == 0, "its arguments"); *p = g_word + 6; if (g_item == BADCALL) ASSUME(**p != 0); else ASSUME(**p == 0); return 1;
}
define_t *search_defines(const char *n, bool l) { CHECK(g_item == MACRO || g_item == EMPTYM || g_item == UNKNOWN, "the macro"); return g_item == UNKNOWN ? 0 : &g_def; }
char *parse_args(const char *p, define_t *d, list_t **a) { CHECK(d == &g_def && g_nargs == 0 && p == (g_ne[-1] == '(' ? g_ne - 1 : g_ne), "its arguments"); g_nargs = 1; *a = g_list; g_argset = 1; return g_word + 6; }
char *parse_define(define_t *d) { CHECK(d == &g_def && g_argset == 1, "its expansion with the arguments"); if (g_item == EMPTYM) return 0; return g_exp; }
void remove_arg_set(list_t *l) { CHECK(l == g_list && g_argset == 1, "the arguments are removed"); g_argset = 0; }
void vc_free(void *p) { CHECK(p == g_exp && g_item == MACRO && g_freed == 0 && g_done == 1, "released after use"); g_freed = 1; }
char *vc_rec_parse_emit_string(const char *p, ES_TYPE t, void *e) { CHECK(p == g_exp && (int)t == g_type && e == g_target && g_item == MACRO && g_done == 0 && g_argset == 1 && g_freed == 0, "the expansion's items are emitted in its place"); g_done = 1; if (DATA) { unsigned n = (unsigned)nondet_vc_ll(); ASSUME(n < 1000000); add(n); program_counter += n; stats_datasize += n; } return (char *)p; }
int vc_putchar(int c) { CHECK(c == '\n' && g_target == (void *)stdout && g_has == 0, "the line's end"); g_has = 1; return c; }
int vc_close(void *f) { CHECK(f == g_target && f != (void *)stdout && g_has == 0, "closed"); g_has = 1; return 0; }
#define next_expr vc_next
#define fprintf(f, fmt, ...) vc_print(f, fmt, (const void *)(long)(0, ##__VA_ARGS__))
#define sprintf(b, fmt, v) CHECK(fmt[1] == 'd' && v == g_val, "the value's digits")
#define eb_append vc_app
#undef read_expr
#define read_expr vc_read
#define AddSPASMErrorSessionAnnotation(s, ...) vc_annot(s)
#define putchar vc_putchar
#define fclose vc_close
#define free vc_free
#include "directive.cpp"
HARNESS(h_emit) {
	g_s = IN_STR(0, g_n, 300, 300); gh_reset(); g_item = OPEN; g_first = 1; g_done = g_in = g_inner = g_replayed = g_argset = g_freed = g_has = g_w = g_seterr = g_nargs = g_len = 0; g_word = g_ne = g_next = 0; g_list = (list_t *)&g_list; g_def.name = g_x; g_def.contents = g_x;
	program_counter = (unsigned)nondet_vc_ll(); stats_datasize = (unsigned)nondet_vc_ll(); g_pc = program_counter; g_data = stats_datasize; mode = nondet_vc_char() & (MODE_NORMAL | MODE_LIST); parse_emit_string__level = nondet_vc_char(); ASSUME(parse_emit_string__level >= 0); int lv = parse_emit_string__level, k = nondet_vc_char();
	if (k == 0) g_type = ES_BYTE; else if (k == 1) g_type = ES_WORD; else if (k == 2) g_type = ES_LONG; else if (k == 3) g_type = ES_ECHO; else g_type = ES_FCREATE;
	ASSUME(stdout != 0); g_target = 0; if (g_type == ES_ECHO) { int q = nondet_vc_char(); if (q == 1) g_target = (void *)stdout; if (q == 2) g_target = (void *)g_x; } if (g_type == ES_FCREATE) g_target = (void *)g_x;
	char *r = parse_emit_string(g_s, g_type, g_target);
	CHECK(g_item == OPEN && SETTLED, "all items are emitted, once each and in order");
	CHECK(program_counter == g_pc && stats_datasize == g_data, "the location has advanced by the size of the items");
	CHECK(parse_emit_string__level == lv, "the nesting level is restored"); CHECK(g_has == (g_type == ES_ECHO && lv == 0 && g_target != 0), "an echoed line is ended");
	REACH();
}
#endif
#endif
