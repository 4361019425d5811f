/* C33 labels and definitions: add_label, add_define, set_define, remove_define, define_with_value. */
#include "base.h"
#include "str.h"
DECL_IN(cs) DECL_IN(mode) DECL_IN(def) DECL_IN(lab) DECL_IN(v) DECL_IN(old) DECL_IN(na) DECL_IN(k) DECL_IN(red) DECL_IN(len) DECL_IN(cont) DECL_IN(empty) DECL_IN(loc)
#ifdef NATIVE
#include "hash.h"
#include "expand_buf.cpp"
#define printf(...) 0
#include "storage.cpp"
#undef printf
#include "hash.cpp"
#include "list.cpp"
#include "modp_ascii.cpp"
#include "utils_inc.h"
int StartSPASMErrorSession() { return 1; }
void EndSPASMErrorSession(int) {}
bool parse_num(const char *e, int *v) { char *p; *v = (int)strtol(e, &p, 10); return *p == 0; }
static void start(void) { gh_reset(); case_sensitive = IN(cs, 0, 1) != 0; line_num = 33; curr_input_file = (char *)"f.asm"; arg_list = 0; mode = 0; static int n; define_table = hash_init(destroy_define_value); label_table = hash_init(destroy_label_value); }
static void stop(void) { hash_free(define_table); hash_free(label_table); }
static const char *spell(int i) { static const char *s[4] = {"Name", "NAME", "other", "n\xe9" "Z"}; return s[i]; }
HARNESS(h_label) {
	start(); char nm[8]; int val[8] = {0}, has[8] = {0}; const char *key[8]; int nk = 0;
	for (int i = 0; i < 6; i++) {
		sprintf(nm, "op%d", i); int op = (int)vc_in(nm, 0, 2); sprintf(nm, "sp%d", i); const char *sp = spell((int)vc_in(nm, 0, 3)); sprintf(nm, "v%d", i); int v = (int)vc_in(nm, -3, 3); int k; gh_reset();
		for (k = 0; k < nk; k++) if (case_sensitive ? !strcmp(key[k], sp) : !strcasecmp(key[k], sp)) break;
		if (k == nk) { key[nk++] = sp; has[k] = 0; } /* 0 nothing, 1 label, 2 definition */
		if (op == 0) {
			label_t *l = add_label(strdup(sp), v);
			if (has[k] == 2) CHECK(l == 0 && gh_showerr >= 1, "a label cannot be what a definition is");
			else { CHECK(l && l->value == v && search_labels(sp) == l && gh_showerr == 0 && (gh_showwarn > 0) == (has[k] == 1 && val[k] != v), "a label gets its value, with a warning if it had another"); has[k] = 1; val[k] = v; }
		} else if (op == 1) {
			bool red = false; define_t *d = add_define(strdup(sp), &red);
			if (has[k] == 1) CHECK(d == 0 && gh_showerr >= 1, "a definition cannot be what a label is");
			else { CHECK(d && d->num_args == 0 && red == (has[k] == 2) && search_defines(sp) == d && gh_showerr == 0, "a definition is made once");
				char t[20]; sprintf(t, "%d", v); set_define(d, t, -1, red); CHECK(!strcmp(d->contents, t), "its contents"); has[k] = 2; val[k] = v; }
		} else { remove_define((char *)sp); if (has[k] == 2) has[k] = 0; CHECK(search_defines(sp) == 0 && (has[k] == 1) == (search_labels(sp) != 0), "a removed definition is gone, labels stay"); }
		for (int q = 0; q < nk; q++) { label_t *l = search_labels(key[q]); define_t *d = search_defines(key[q]); CHECK((l != 0) == (has[q] == 1) && (d != 0) == (has[q] == 2) && IMP(l, l->value == val[q]) && IMP(d, atoi(d->contents) == val[q]), "the others keep theirs"); }
	}
	stop();
}
extern "C" void h_define(void) { h_label(); }
extern "C" void h_set(void) { h_label(); }
extern "C" void h_value(void) { start(); int v = (int)IN(v, -2147483648LL, 2147483647LL); gh_reset(); CHECK(!define_with_value("abc", v), "new"); define_t *d = search_defines("abc"); char t[20]; sprintf(t, "%d", v); CHECK(d && !strcmp(d->contents, t), "its contents are the number"); CHECK(define_with_value("abc", 7) && search_defines("abc") == d && !strcmp(d->contents, "7"), "redefined"); stop(); }
extern "C" void h_remove(void) { h_label(); }
#else
char g_name[4], g_up[4], g_file[4], g_dup[4], g_cf[4]; define_t g_def; label_t g_lab, g_newlab; define_t g_newdef; int g_hasdef, g_haslab, g_upfreed, g_namefreed, g_ups, g_ins, g_made, g_argfreed; void *g_intab, *g_inwhat; char g_arg[MAX_ARGS][2]; int g_rem; char *g_remname;
extern bool case_sensitive; extern hash_t *define_table, *label_table;
#define WANT (case_sensitive ? g_name : g_up)
#define KEPT (g_upfreed == 0 && g_namefreed == !case_sensitive)
#define GONE (g_upfreed == !case_sensitive && g_namefreed == 1)
char *vc_strup(const char *s) { CHECK(s == g_name && !case_sensitive, "the name in upper case"); g_ups++; return g_up; }
define_t *search_defines(const char *n, bool l) { CHECK(n == WANT, "the definition of that name"); return g_hasdef ? &g_def : 0; }
label_t *vc_sl(const char *n) { CHECK(n == WANT, "the label of that name"); return g_haslab ? &g_lab : 0; }
void vc_free(void *p) {
	if (p == g_up) { CHECK(g_upfreed == 0, "released once"); g_upfreed++; } else if (p == g_name) { CHECK(g_namefreed == 0, "released once"); g_namefreed++; }
	else { CHECK(SAMEOBJ(p, g_arg) && ((char *)p - (char *)g_arg) % 2 == 0, "only the old parameters are released"); if (p == g_arg[g_k]) g_argfreed++; }
}
void *vc_malloc(size_t n) { CHECK(n == sizeof(label_t) || n == sizeof(define_t), "one entry"); g_made++; return n == sizeof(label_t) ? (void *)&g_newlab : (void *)&g_newdef; }
char *vc_strdup(const char *s) { CHECK(s == g_file, "the current file's name"); return g_dup; }
void vc_insert(hash_t *t, void *d) { g_intab = t; g_inwhat = d; g_ins++; }
int vc_hremove(hash_t *t, const char *n) { CHECK(t == define_table && n == WANT, "the definition of that name"); g_rem++; return 1; }
long vc_strlen(const char *s) { CHECK(s == g_name, "the name"); return s[0] == 0 ? 0 : 1; }
#define strup vc_strup
#define search_labels vc_sl
#define free vc_free
#define malloc vc_malloc
#define strdup vc_strdup
#define hash_insert vc_insert
#define hash_remove vc_hremove
#define strlen vc_strlen
#define printf(...) 0
#define save_console_attributes() 0
#define set_console_attributes(c) 0
#define restore_console_attributes(c) 0
#define show_error_prefix(a, b) { CHECK(a == g_cf, "where the other one was defined"); }
#define show_warning_prefix(a, b) { CHECK(a == g_cf, "where the other one was defined"); }
static void start(void) {
	gh_reset(); g_upfreed = g_namefreed = g_ups = g_ins = g_made = g_argfreed = g_rem = 0; case_sensitive = IN(cs, 0, 1) != 0; mode = (int)IN(mode, 0, 65535); g_hasdef = (int)IN(def, 0, 1); g_haslab = (int)IN(lab, 0, 1); line_num = nondet_vc_ll(); curr_input_file = g_file;
	define_table = (hash_t *)&g_def; label_table = (hash_t *)&g_lab; g_def.input_file = g_lab.input_file = g_cf; g_name[0] = nondet_vc_char();
}
#ifdef VC_SET
/* the copy of the new contents */
char g_oldc[4], g_newc[4], g_txt[8], g_exp[4], g_tmp[4], g_n2[4], g_c2[4]; int g_len, g_oldfreed, g_tmpfreed, g_inits, g_hfreed, g_exps, g_dups; hash_t *g_realtab; define_t g_self;
#undef free
#undef strdup
#undef hash_insert
void vc_free2(void *p) { if (p == g_oldc) { CHECK(g_oldfreed == 0, "the old contents are released once"); g_oldfreed++; } else { CHECK(p == g_tmp && g_exps == 1 && g_tmpfreed == 0, "only its own copy is released"); g_tmpfreed++; } }
char *vc_dup2(const char *s) { if (s == g_txt) { CHECK(g_len == -1, "the whole text"); g_dups++; return g_inits ? g_tmp : g_newc; } if (s == g_name) return g_n2; CHECK(s == g_oldc, "the old contents"); return g_c2; }
char *vc_ndup(const char *s, size_t n) { CHECK(s == g_txt && (int)n == g_len && g_len != -1, "the text, up to its length"); g_dups++; return g_inits ? g_tmp : g_newc; }
hash_t *vc_hinit(void f(void *)) { g_inits++; return (hash_t *)&g_hfreed; }
define_t *add_define(char *n, bool *r, bool l) { CHECK(define_table == (hash_t *)&g_hfreed && n == g_n2 && !l, "the old definition alone is visible"); return &g_self; }
char *expand_expr(const char *e, bool l) { CHECK(define_table == (hash_t *)&g_hfreed && e == g_tmp && !l && g_self.contents == g_c2 && g_exps == 0 && g_oldfreed == 0, "the old contents replace the name in the new ones"); g_exps++; return g_exp; }
void vc_hfree(hash_t *t) { CHECK(t == (hash_t *)&g_hfreed, "the table made for this"); g_hfreed++; }
#define free vc_free2
#define strdup vc_dup2
#define strndup vc_ndup
#define hash_init vc_hinit
#define hash_free vc_hfree
#endif
#include "storage.cpp"
#ifndef VC_SET
HARNESS(h_label) {
	start(); int v = (int)IN(v, -2147483648LL, 2147483647LL), old = (int)IN(old, -2147483648LL, 2147483647LL); g_lab.value = old; g_lab.line_num = 77;
	label_t *r = add_label(g_name, v);
	CHECK(g_lab.name == 0 && g_lab.line_num == 77 && g_lab.input_file == g_cf, "an existing label keeps its name and place");
	if (mode & MODE_CODE_COUNTER) CHECK(r == 0 && g_namefreed == 1 && g_ins == 0 && g_lab.value == old && gh_showerr == 0 && gh_showwarn == 0, "counting code makes no labels");
	else if (g_hasdef) CHECK(r == 0 && gh_showerr == 1 && g_ins == 0 && g_lab.value == old, "a label cannot be what a definition is");
	else if (g_haslab) CHECK(r == &g_lab && g_lab.value == v && g_ins == 0 && g_made == 0 && gh_showerr == 0 && gh_showwarn == (v != old), "a label gets its value, with a warning if it had another");
	else CHECK(r == &g_newlab && g_ins == 1 && g_intab == label_table && g_inwhat == &g_newlab && g_newlab.name == WANT && g_newlab.value == v && g_newlab.line_num == line_num && g_newlab.input_file == g_dup && gh_showerr == 0 && gh_showwarn == 0 && KEPT, "a new label is stored under its name");
	REACH();
}
HARNESS(h_define) {
	int i; start(); bool red = 0; bool *rp = 0; if (IN(red, 0, 1)) rp = &red; bool local = IN(loc, 0, 1) != 0; g_k = (int)IN(k, 0, MAX_ARGS - 1);
	g_def.num_args = (int)IN(na, 0, MAX_ARGS); int had = g_def.num_args; for (i = 0; i < MAX_ARGS; i++) { g_def.args[i] = 0; if (i < had) g_def.args[i] = g_arg[i]; } g_def.contents = g_cf; g_def.name = g_cf;
	define_t *r = add_define(g_name, rp, local);
	CHECK(g_def.contents == g_cf && g_def.name == g_cf && g_def.input_file == g_cf, "an existing definition keeps its contents, name and place");
	if (g_name[0] == 0) CHECK(r == 0 && gh_err == 1 && gh_errcode == SPASM_ERR_NAME_EXPECTED && g_ins == 0 && g_namefreed == 1, "a definition needs a name");
	else if (g_haslab) CHECK(r == 0 && gh_showerr == 1 && g_ins == 0 && g_def.num_args == had, "a definition cannot be what a label is");
	else if (g_hasdef) CHECK(r == &g_def && g_ins == 0 && g_made == 0 && g_def.num_args == 0 && gh_showerr == 0 && IMP(rp, red != 0) && GONE && g_argfreed == (g_k < had) && g_def.args[g_k] == 0, "a definition made before is given back, without its parameters");
	else CHECK(r == &g_newdef && g_ins == 1 && g_intab == define_table && g_inwhat == &g_newdef && g_newdef.name == WANT && g_newdef.contents == 0 && g_newdef.num_args == 0 && g_newdef.line_num == line_num && g_newdef.input_file == g_dup && g_newdef.args[g_k] == 0 && IMP(rp, red == 0) && gh_showerr == 0 && KEPT, "a new definition is stored under its name");
	REACH();
}
HARNESS(h_remove) {
	start(); remove_define(g_name);
	CHECK(g_rem == 1 && g_namefreed == 0 && g_upfreed == !case_sensitive, "the definition of that name is removed");
	REACH();
}
#else
HARNESS(h_set) {
	start(); g_oldfreed = g_tmpfreed = g_inits = g_hfreed = g_exps = g_dups = 0; list_t al; arg_list = &al; g_len = (int)IN(len, -1, 1000); bool red = IN(red, 0, 1) != 0; int cont = (int)IN(cont, 0, 1);
	g_def.name = g_name; g_def.contents = 0; if (cont) g_def.contents = g_oldc; g_self.contents = 0; g_realtab = define_table;
	set_define(&g_def, g_txt, g_len, red);
	CHECK(g_def.name == g_name && define_table == g_realtab && arg_list == &al && g_oldfreed == cont && g_dups == 1 && g_hfreed == g_inits, "nothing else changes");
	if (red && cont) CHECK(g_def.contents == g_exp && g_exps == 1 && g_tmpfreed == 1 && g_inits == 1, "a redefinition replaces its own name by the old contents, once");
	else CHECK(g_def.contents == g_newc && g_exps == 0 && g_inits == 0, "the contents are the text");
	REACH();
}
#endif
#endif
