/* C12 macro arguments: the storage of argument sets (storage.cpp), parse_args (utils.cpp). */
#include "base.h"
#include "str.h"
#ifdef NATIVE
#include "hash.h"
#endif
DECL_IN(cs) DECL_IN(n) DECL_IN(hit) DECL_IN(glob) DECL_IN(loc) DECL_IN(sets) DECL_IN(k) DECL_IN(na) DECL_IN(wh)
#ifndef VC_PARSE
#ifdef NATIVE
#include "storage.cpp"
#include "hash.cpp"
#include "list.cpp"
#include "modp_ascii.cpp"
#include "utils_inc.h"
static define_t *put(hash_t *t, const char *name, const char *v) { define_t *d = (define_t *)calloc(1, sizeof(define_t)); d->name = strdup(name); d->contents = strdup(v); hash_insert(t, d); return d; }
static void gone(void *) {}
extern "C" void h_any(void) {
	/* sets of arguments, innermost first, against a global table: who wins */
	static const char *names[3] = {"ARG", "X", "LONG_NAME"}, *asked[2][3] = {{"ARG", "X", "LONG_NAME"}, {"arg", "x", "Long_Name"}};
	case_sensitive = IN(cs, 0, 1) != 0; int sets = (int)IN(sets, 0, 4); define_t *own[4][3]; define_t *glob[3]; char nm[8]; gh_reset(); line_num = 33; curr_input_file = (char *)"f.asm";
	define_table = hash_init(gone); label_table = hash_init(gone); arg_list = 0; list_t *l[4];
	for (int k = 0; k < 3; k++) { snprintf(nm, sizeof nm, "g%d", k); glob[k] = vc_in(nm, 0, 1) ? put(define_table, names[k], "g") : 0; }
	for (int i = 0; i < sets; i++) {
		l[i] = add_arg_set(); CHECK(arg_list == l[i], "the newest set of arguments comes first");
		for (int k = 0; k < 3; k++) { snprintf(nm, sizeof nm, "s%d%d", i, k); own[i][k] = 0; int has = (int)vc_in(nm, 0, 2); if (has) { add_arg(strdup(names[k]), has == 2 ? NULL : strdup("v"), l[i]); own[i][k] = (define_t *)hash_lookup((hash_t *)l[i]->data, names[k]); CHECK(own[i][k] && (has == 2 ? own[i][k]->contents == 0 : own[i][k]->contents && !strcmp(own[i][k]->contents, "v")) && own[i][k]->num_args == 0 && own[i][k]->line_num == 33, "the argument is stored with its value"); } }
	}
	for (int left = sets; left >= 0; left--) {
		for (int k = 0; k < 3; k++) {
			define_t *want = 0; for (int i = 0; i < left; i++) if (own[i][k]) want = own[i][k];
			const char *q = asked[!case_sensitive][k];
			CHECK(search_local_defines(q) == want, "arguments are found in the innermost call that has them");
			CHECK(search_defines(q) == (want ? want : glob[k]) && search_defines(q, false) == glob[k], "then among the global definitions");
		}
		if (left) remove_arg_set(l[left - 1]);
	}
	CHECK(arg_list == 0, "no arguments are left when the calls are over");
	remove_arg_set(0);
	hash_free(define_table); hash_free(label_table);
}
extern "C" void h_search(void) { h_any(); }
extern "C" void h_add(void) { h_any(); }
extern "C" void h_set(void) { h_any(); }
#else
char g_name[4], g_up[4], g_val[4], g_file[4], g_dup[4], g_tabs[2]; list_t X; long g_left; int g_found, g_ups, g_frees, g_freed_name, g_globs, g_ins, g_sets; define_t g_loc, g_glob, g_new; label_t g_lab; int g_hasglob; void *g_intab, *g_inwhat; int g_names;
extern bool case_sensitive; extern hash_t *define_table, *label_table;
static void cell(void) { X.next = g_left > 1 ? &X : 0; X.data = &g_tabs[nondet_vc_char() & 1]; }
#define WANT (case_sensitive ? g_name : g_up)
char *vc_strup(const char *s) { CHECK(s == g_name, "the name"); g_ups++; return g_up; }
void *vc_lookup(hash_t *t, const char *n) {
	CHECK(n == WANT && g_frees == 0, "the name is looked up in upper case unless case matters");
	if (t == define_table) { g_globs++; return g_hasglob ? &g_glob : 0; }
	if (t == label_table) { g_globs++; return g_hasglob ? &g_lab : 0; }
	if (g_found) { CHECK((void *)t == X.data && g_globs == 0, "the argument that was found"); return &g_loc; }
	CHECK(g_left > 0 && (void *)t == X.data && g_found == 0 && g_globs == 0, "the sets of arguments are searched from the innermost, once each"); g_left--;
	if (nondet_vc_char()) { g_found = 1; return &g_loc; }
	return 0;
}
void vc_free(void *p) { CHECK(g_frees == 0 && ((p == g_up && g_ups) || (p == g_name && g_freed_name == 0 && g_ups)), "only its own copy of the name is released"); if (p == g_up) g_frees++; else g_freed_name++; }
/* __LINE and __FILE have their own checks */
int vc_strcmp(const char *a, const char *b) { CHECK(a == WANT && b[0] == '_' && b[1] == '_', "built-in names"); g_names++; return 1; }
void *vc_malloc(size_t n) { CHECK(n == sizeof(define_t), "a definition"); return &g_new; }
char *vc_strdup(const char *s) { CHECK(s == g_file, "the current file's name"); return g_dup; }
void vc_insert(hash_t *t, void *d) { g_intab = t; g_inwhat = d; g_ins++; }
hash_t *vc_init(void f(void *)) { CHECK(f != 0, "definitions are released with their set"); g_sets++; return (hash_t *)g_tabs; }
list_t g_node, g_old, g_nx; int g_hfree, g_lrem, g_nfree;
list_t *vc_prepend(list_t *l, void *d) { CHECK(l == &g_old && d == g_tabs, "before the others"); g_ins++; return &g_node; }
void vc_hfree(hash_t *t) { CHECK((void *)t == g_tabs && g_hfree == 0 && g_lrem == 0 && g_nfree == 0, "the set is released"); g_hfree++; }
list_t *vc_lremove(list_t *l, list_t *n) { CHECK(l == &g_old && n == &g_node && g_lrem == 0 && g_nfree == 0, "taken out of the list"); g_lrem++; return &g_nx; }
void vc_nfree(list_t *n) { CHECK(n == &g_node && g_lrem == 1 && g_nfree == 0, "released once, after it was taken out"); g_nfree++; }
#define strup vc_strup
#define free vc_free
#define hash_lookup vc_lookup
#define strcmp vc_strcmp
#define malloc vc_malloc
#define strdup vc_strdup
#define hash_insert vc_insert
#define hash_init vc_init
#define list_prepend vc_prepend
#define hash_free vc_hfree
#define list_remove vc_lremove
#define list_free_node vc_nfree
#include "storage.cpp"
static void start(void) {
	g_found = g_ups = g_frees = g_freed_name = g_globs = g_ins = g_names = 0;
	case_sensitive = IN(cs, 0, 1) != 0; define_table = (hash_t *)&g_glob; label_table = (hash_t *)&g_lab; g_hasglob = nondet_vc_char() & 1; gh_reset();
	g_left = nondet_vc_ll(); ASSUME(g_left >= 0 && g_left < (1L << 40));
	CBMC_ONLY(if (0) { X.next = &X; X.data = g_tabs; })
	arg_list = 0; if (g_left) arg_list = &X; cell();
}
HARNESS(h_search) {
	start(); list_t *had = arg_list; long n = g_left;
	if (IN(loc, 0, 1)) {
		define_t *r = search_local_defines(g_name);
		CHECK(g_globs == 0 && r == (g_found ? &g_loc : 0), "the innermost argument of that name, or none"); CHECK(IMP(!g_found, g_left == 0), "every set is searched");
	} else if (IN(wh, 0, 1)) {
		CBMC_ONLY(_Bool local = IN(hit, 0, 1) != 0;)
		define_t *r = search_defines(g_name, local);
		CHECK(r == (g_found ? &g_loc : g_hasglob ? &g_glob : 0), "an argument of that name comes before the global definition"); CHECK(IMP(local && !g_found, g_left == 0) && IMP(!local, !g_found && g_left == n) && IMP(!g_found, g_globs == 1), "arguments are searched if asked for");
	} else {
		label_t *r = search_labels(g_name);
		CHECK(r == (g_hasglob ? &g_lab : 0) && g_globs == 1 && g_left == n, "labels are looked up in their own table");
	}
	CHECK(arg_list == had && gh_err == 0 && gh_showerr == 0 && g_frees == !case_sensitive && g_ups == !case_sensitive && g_freed_name == 0, "a search changes nothing");
	REACH();
}
HARNESS(h_add) {
	start(); curr_input_file = g_file; line_num = (int)nondet_vc_ll(); X.data = &g_tabs[1]; char *v = 0; if (nondet_vc_char()) v = g_val;
	add_arg(g_name, v, &X);
	CHECK(g_ins == 1 && g_intab == &g_tabs[1] && g_inwhat == &g_new && g_new.name == WANT && g_new.contents == v && g_new.num_args == 0 && g_new.line_num == line_num && g_new.input_file == g_dup, "the argument is stored in its set, with its value");
	CHECK(g_frees == 0 && g_freed_name == !case_sensitive && g_globs == 0, "the name is kept, in upper case unless case matters");
	int k = (int)IN(k, 0, MAX_ARGS - 1); CHECK(g_new.args[k] == 0, "an argument has no arguments");
	REACH();
}
HARNESS(h_set) {
	g_node.data = g_tabs; arg_list = &g_old;
	if (IN(loc, 0, 1)) { list_t *r = add_arg_set(); CHECK(r == &g_node && arg_list == &g_node && g_sets == 1 && g_ins == 1, "a new, innermost, set of arguments"); }
	else if (IN(wh, 0, 1)) { remove_arg_set(&g_node); CHECK(arg_list == &g_nx && g_hfree == 1 && g_lrem == 1 && g_nfree == 1, "a finished call's arguments are gone"); }
	else { remove_arg_set(0); CHECK(arg_list == &g_old && g_hfree + g_lrem + g_nfree == 0, "no arguments, nothing to remove"); }
	REACH();
}
#endif
#else
/* ---- parse_args ---- */
#ifndef NATIVE
/* Arguments of the call: g_n of them; the i-th is read by the i-th successful call of extract_arg_string (contract: C15). */
long g_i, g_took; int g_setmade, g_warned, g_empty, g_pos, g_last; list_t g_set; char *const g_an = "a", *const g_at = "@b"; char g_word[4], g_evald[4], g_dupw[4], g_dupn[4], g_text[8]; int g_evs, g_dws, g_dns; define_t g_def; int g_dupk, g_islit;
#define TOK(i) (g_text + 2)
list_t *vc_addset(void) { g_setmade++; return &g_set; }
char *vc_ws(const char *p) { CHECK(p == g_text + 1, "the arguments start behind the parenthesis"); return g_text + 2; }
bool vc_eocl(const char *p) { CHECK(p == g_text + 2, "the end of the statement"); return sp_eocl(g_text[2]); }
char *vc_extract(const char ** const p, arg_context_t *c) {
	CHECK(*p == g_text + 2, "the next argument"); CHECK(g_took == 0 || g_warned, "each argument is stored");
	if (g_i < g_n) { g_i++; g_took = !g_warned; g_dupk = g_evs = g_dws = g_dns = 0; return c->arg; }
	g_last = 1; *p = g_text + 4; return 0;
}
label_t *vc_labels(const char *n) { return 0; }
char *vc_eval(const char *w) { CHECK(g_took == 1 && g_evs == 0, "the argument's text"); g_evs = 1; return g_evald; }
char *vc_dup(const char *s) {
	if (g_took == 1 && s != g_an && s != g_at) { CHECK(g_dws == 0, "the argument's text"); g_dws = 1; return g_dupw; }
	CHECK(s == g_an || s == g_at, "the argument's name"); g_islit = s == g_at; g_dns = 1; return g_dupn;
}
long g_added;
void vc_addarg(char *n, char *v, list_t *set) {
	CHECK(n == g_dupn && g_dns == 1 && set == &g_set && g_added < g_def.num_args, "the parameters are bound in order, once each"); g_dns = 0;
	if (g_took) { CHECK(g_added == g_i - 1 && g_took == 1 && (g_islit ? v == g_dupw && g_dws == 1 && !g_evs : v == g_evald && g_evs == 1 && !g_dws), "the n-th parameter gets the n-th argument, evaluated unless it is literal"); g_took = 0; }
	else CHECK(v == 0 && (g_last || g_empty), "a missing argument is undefined");
	g_added++;
}
#undef SetLastSPASMWarning
#define SetLastSPASMWarning(c, ...) { vc_warn(c); CHECK(c == SPASM_WARN_MACRO_TOO_MANY_ARGS && g_warned == 0 && g_took == 1 && g_added == g_def.num_args, "too many arguments"); g_warned = 1; g_took = 0; }
#define add_arg_set vc_addset
#define skip_whitespace vc_ws
#define is_end_of_code_line vc_eocl
#define extract_arg_string vc_extract
#define search_labels vc_labels
#define eval vc_eval
#define strdup vc_dup
#define add_arg vc_addarg
#include "utils.cpp"
DECL_IN(paren) DECL_IN(c0) DECL_IN(c2) DECL_IN(c4)
HARNESS(h_parse) {
	int i; list_t *set = 0; gh_reset();
	g_def.name = g_an; g_def.num_args = (int)IN(na, 0, MAX_ARGS); for (i = 0; i < MAX_ARGS; i++) { g_def.args[i] = g_an; if (nondet_vc_char()) g_def.args[i] = g_at; }
	g_n = nondet_vc_ll(); ASSUME(g_n >= 0 && g_n < (1L << 40)); g_i = 0; g_took = 0; g_added = 0; g_dns = g_warned = g_last = g_setmade = 0;
	g_text[0] = (char)IN(c0, -128, 127); g_text[2] = (char)IN(c2, -128, 127); g_text[4] = (char)IN(c4, -128, 127); g_text[7] = 0;
	ASSUME(g_text[2] != 0 || 1);
	int paren = g_text[0] == '('; g_empty = !paren || g_text[2] == ')' || sp_eocl(g_text[2]);
	CHECK(parse_args(g_text, &g_def, 0) == 0, "nowhere to put the arguments");
	char *r = parse_args(g_text, &g_def, &set);
	if (!paren && g_def.num_args == 0) CHECK(r == g_text && set == 0 && g_setmade == 0 && gh_warn == 0, "no parameters, no arguments");
	else {
		CHECK(set == &g_set && g_setmade == 1 && g_added == g_def.num_args, "every parameter is bound, to its argument or to nothing");
		CHECK((gh_warn == 1) == (!g_empty && g_n > g_def.num_args) && gh_warn <= 1, "arguments too many are left out, with a warning");
		CHECK(IMP(!g_empty, g_last == 1 && g_i == g_n), "all arguments are read");
		char *end = !paren ? g_text : g_empty ? g_text + 2 : g_text + 4;
		CHECK(r == end + (*end == ')'), "the call ends behind its parenthesis");
	}
	REACH();
}
#else
#include "expand_buf.cpp"
#include "utils_inc.h"
#include "modp_ascii.cpp"
static char g_log[8000]; static list_t g_set;
label_t *search_labels(const char *) { return 0; }
define_t *search_defines(const char *, bool) { return 0; }
define_t *search_local_defines(const char *) { return 0; }
list_t *add_arg_set() { return &g_set; }
bool parse_num(const char *e, int *v) { char *p; *v = (int)strtol(e, &p, 10); return *p == 0; }
int StartSPASMErrorSession() { return 1; }
void EndSPASMErrorSession(int) {}
void add_arg(char *n, char *v, list_t *s) { strcat(g_log, n); strcat(g_log, "="); strcat(g_log, v ? v : "none"); strcat(g_log, ";"); free(n); free(v); }
DECL_IN(sp) DECL_IN(lit) DECL_IN(end)
extern "C" void h_parse(void) {
	static const char *args[4] = {"5", "300", "\"a,b\"", "(1,2)+0"}, *val[4] = {"$5", "$12C", "\"a,b\"", "(1,2)+0"}, *seps[3] = {",", " , ", ", "}, *ends[4] = {")", "", "\n", ") nop"};
	int na = (int)IN(na, 0, MAX_ARGS), n = (int)IN(n, 0, 17), sp = (int)IN(sp, 0, 2), lit = (int)IN(lit, 0, 65535), paren = (int)IN(loc, 0, 3) != 0, e = (int)IN(end, 0, 3); static define_t d; char text[600] = "", want[2000] = "", nm[17][8]; list_t *set = 0;
	d.name = (char *)"m"; d.num_args = na; for (int i = 0; i < na; i++) { sprintf(nm[i], "%sp%d", lit >> i & 1 ? "@" : "", i); d.args[i] = nm[i]; }
	if (paren) strcpy(text, "(");
	for (int i = 0; i < n && paren; i++) { char k[8]; sprintf(k, "a%d", i); int x = (int)vc_in(k, 0, 3); if (i) strcat(text, seps[sp]); strcat(text, args[x]); if (i < na) { strcat(want, nm[i]); strcat(want, "="); strcat(want, lit >> i & 1 ? args[x] : val[x]); strcat(want, ";"); } }
	for (int i = paren ? n : 0; i < na; i++) { strcat(want, nm[i]); strcat(want, "=none;"); }
	int at = (int)strlen(text); if (!paren) { if (e != 1) e = 2; } strcat(text, ends[e]); gh_reset(); g_log[0] = 0;
	char *r = parse_args(text, &d, &set);
	CHECK(!strcmp(g_log, want), "the n-th parameter gets the n-th argument, evaluated unless it is literal");
	CHECK(gh_warn == (paren && n > na), "arguments too many are left out, with a warning");
	CHECK(r == text + at + (text[at] == ')'), "the call ends behind its parenthesis");
	CHECK(set == (paren || na ? &g_set : 0), "a set of arguments for the call");
}
#endif
#endif
