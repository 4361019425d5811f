/* C27 file names: change_extension, fix_filename, is_abs_path (utils.cpp); full_path, #import, #include (preop.cpp). */
#ifdef NATIVE
#include <string>
#include <vector>
#include <map>
#endif
#include "base.h"
#include "str.h"
#ifdef NATIVE
#include <unistd.h>
#include "expand_buf.cpp"
#include "modp_ascii.cpp"
#include "utils_inc.h"
static std::map<std::string, int> g_can; static std::vector<std::string> g_asked; static std::string g_out; static std::vector<std::string> g_seen; static std::string g_file, g_runfile; static int g_runline; opcode *all_opcodes;
static int vc_access(const char *f, int) { if (!f) return -1; g_asked.push_back(f); return g_can.count(f) ? 0 : -1; }
static std::vector<std::string> g_opened; static size_t g_at; static FILE *const FAKE = (FILE *)&g_out;
static FILE *vc_fopen(const char *f, const char *) { if (!f || !g_can.count(f)) return 0; g_opened.push_back(f); g_at = 0; return FAKE; }
static int vc_fgetc(FILE *) { return g_at < g_file.size() ? (unsigned char)g_file[g_at++] : EOF; }
static int vc_fclose(FILE *) { return 0; }
int write_out(int c) { g_out += (char)c; return c; }
bool IsFileBitmap(FILE *) { return false; }
void handle_bitmap(FILE *) {}
void do_listing_for_line(char *) {}
void run_first_pass(char *p) { g_runfile = curr_input_file; g_runline++; line_num = 77; in_macro = 5; line_start = p; curr_input_file = (char *)"other"; }
static char *vc_contents(const char *f) { return g_can.count(f) ? strdup("x") : 0; }
label_t *add_label(char *, int) { return 0; }
list_t *vc_prep(list_t *l, void *d) { list_t *n = (list_t *)malloc(sizeof(list_t)); n->next = l; n->data = d; return n; }
#define access vc_access
#define fopen vc_fopen
#define fgetc vc_fgetc
#define fclose vc_fclose
#define get_file_contents vc_contents
#define list_prepend vc_prep
#undef _T
#define _T(x) x
int StartSPASMErrorSession() { return 1; }
void EndSPASMErrorSession(int) {}
define_t *search_defines(const char *, bool) { return 0; } label_t *search_labels(const char *) { return 0; }
#include "preop.cpp"
#undef fopen
#undef fclose
#undef access
static std::string text(const char *nm, const char *set, int max) { char q[16]; sprintf(q, "%sn", nm); int n = (int)vc_in(q, 0, max); std::string s; for (int i = 0; i < n; i++) { sprintf(q, "%s%d", nm, i); s += set[vc_in(q, 0, (long)strlen(set) - 1)]; } return s; }
extern "C" void h_any(void) {
	std::string f = text("f", "ab./\\.c ", 14), e = text("e", "xyz.", 4);
	{ size_t d = f.rfind('.'), s = f.find_last_of("/\\"); std::string w = (d != std::string::npos && (s == std::string::npos || s < d) ? f.substr(0, d) : f) + "." + e; char *r = change_extension(f.c_str(), e.c_str()); CHECK(w == r, "the extension is replaced"); free(r); }
	{ std::string w = f; for (char &c : w) if (c == '\\') c = '/'; std::string b = f; CHECK(fix_filename(&b[0]) == &b[0] && b == w, "separators"); }
	{ std::string p = text("p", " \tc:/\\.1A", 5); size_t i = 0; while (i < p.size() && (p[i] == ' ' || p[i] == '\t')) i++; std::string q = p.substr(i); bool w = !q.empty() && (q[0] == '/' || q[0] == '\\' || (q.size() > 1 && q[1] == ':' && isalpha(q[0]))); CHECK(is_abs_path(p.c_str()) == w && !is_abs_path(0), "absolute"); }
	/* directories d0 d1 .. ; the file is in some of them */
	char q[16]; int n = (int)vc_in("dirs", 0, 4); list_t *l = 0; std::vector<std::string> cand; bool abs = vc_in("abs", 0, 1); std::string name = abs ? "/x\\y.inc" : "s\\y.inc", fixed = abs ? "/x/y.inc" : "s/y.inc", want; g_can.clear(); g_opened.clear(); g_out.clear();
	if (abs && vc_in("absok", 0, 1)) { g_can[name] = 1; want = name; }
	for (int i = 0; i < n; i++) { sprintf(q, "d%d", i); cand.push_back(std::string(q) + "/" + fixed); sprintf(q, "ok%d", i); if (vc_in(q, 0, 1)) { g_can[cand[i]] = 1; if (want.empty()) want = cand[i]; } }
	for (int i = n - 1; i >= 0; i--) { sprintf(q, "d%d", i); l = vc_prep(l, strdup(q)); }
	include_dirs = l; g_asked.clear(); char *r = full_path(name.c_str()); CHECK((r ? std::string(r) : std::string()) == want, "the first directory that has the file"); free(r);
	/* (the name of an #include is written with / by then) */
	std::string want2; if (abs && vc_in("absok2", 0, 1)) { g_can[fixed] = 1; want2 = fixed; } else for (auto &c : cand) if (want2.empty() && g_can.count(c)) want2 = c;
	std::string line = "\"" + name + "\"\n"; g_file = text("b", "\x01\xff\n\r\x1a" "A\x80", 30); gh_reset(); program_counter = 100;
	handle_preop_import(&line[0]); CHECK(want2.empty() ? g_out.empty() && gh_err == 1 && program_counter == 100 : g_out == g_file && program_counter == 100 + g_file.size() && gh_err == 0 && g_opened.back() == want2, "imported whole, or an error");
	gh_reset(); mode = 0; input_files = 0; g_runline = 0; char cif[] = "main.asm"; curr_input_file = cif; line_num = 12; in_macro = 1; char ls[] = "ls"; line_start = ls; char *was = ls;
	handle_preop_include(&line[0]); CHECK(curr_input_file == cif && line_num == 12 && in_macro == 1 && line_start == was, "the including file goes on where it was"); CHECK(want2.empty() ? g_runline == 0 && gh_err + gh_showerr > 0 : g_runline == 1 && g_runfile == want2 && gh_err + gh_showerr == 0 && input_files && want2 == (char *)input_files->data && !input_files->next, "assembled once, under its name");
	while (l) { list_t *x = l->next; free(l->data); free(l); l = x; }
}
#define H(n) extern "C" void n(void) { h_any(); }
H(h_ext) H(h_sep) H(h_abs) H(h_path) H(h_import) H(h_include)
#elif defined(VC_UTILS)
char g_name[2], g_ext[2], *g_b, g_ch, g_xj, *g_skip; long g_ln, g_le, g_sz, g_cl, g_d, g_s1, g_s2, g_j, g_made;
#define LASTSL (g_s1 > g_s2 ? g_s1 : g_s2)
static long cl(void) { return g_d >= 0 && g_d < g_cl && g_b[g_d] == 0 ? g_d : g_cl; }
void *vc_malloc(size_t n) { CHECK(g_made == 0, "one block"); g_made = 1; g_b = (char *)malloc(n); ASSUME(g_b != 0); g_sz = (long)n; return g_b; }
size_t vc_strlen(const char *s) { if (s == g_name) return g_ln; if (s == g_ext) return g_le; if (s == g_skip) return s[0] == 0 ? 0 : s[1] == 0 ? 1 : 2 + (size_t)(g_ln & 0xffff); CHECK(s == g_b && g_made, "a known string"); return cl(); }
char *vc_strcpy(char *d, const char *s) { CHECK(d == g_b && s == g_name && g_ln < g_sz, "the name fits"); if (g_k < g_ln) g_b[g_k] = g_ch; if (g_d >= 0) g_b[g_d] = '.'; g_b[g_ln] = 0; g_cl = g_ln; return d; }
char *vc_strrchr(const char *s, int c) { CHECK(s == g_b || s == g_name, "the name"); long p = c == '.' ? g_d : c == '/' ? g_s1 : g_s2; CHECK(c == '.' || c == '/' || c == '\\', "a dot or a separator"); return p >= 0 ? (char *)s + p : 0; }
char *vc_strpbrk(const char *s, const char *set) { CHECK((set[0] == '/' && set[1] == '\\' || set[0] == '\\' && set[1] == '/') && set[2] == 0, "separators"); CHECK(SAMEOBJ(s, g_b), "in the name"); return LASTSL >= (long)OFF(s) ? g_b + LASTSL : 0; }
char *vc_strcat(char *d, const char *s) { long c = cl(), n = s == g_ext ? g_le : 1; CHECK(d == g_b && c + n < g_sz, "it fits"); if (s == g_ext) { if (g_j < g_le) g_b[c + g_j] = g_xj; } else { CHECK(s[0] == '.' && s[1] == 0, "a dot"); g_b[c] = '.'; } g_b[c + n] = 0; g_cl = c + n; return d; }
char *vc_strchr(const char *s, int c) {
	CHECK(SAMEOBJ(s, g_s) && OFF(s) >= 0 && OFF(s) <= g_n && c == '\\', "the wrong separator"); if (nondet_vc_char() & 1) { ASSUME(!(g_k >= OFF(s)) || CH(g_k) != '\\'); return 0; }
	long p = nondet_vc_ll(); ASSUME(p >= OFF(s) && p < g_n && CH(p) == '\\' && (!(g_k >= OFF(s) && g_k < p) || CH(g_k) != '\\')); return g_s + p;
}
char *skip_whitespace(const char *s) { CHECK(s == g_name, "the name"); return g_skip; }
#define malloc vc_malloc
#define strlen vc_strlen
#define strcpy vc_strcpy
#define strcat vc_strcat
#define strrchr vc_strrchr
#define strpbrk vc_strpbrk
#define strchr vc_strchr
#include "utils.cpp"
#undef malloc
HARNESS(h_ext) {
	g_ln = nondet_vc_ll(); g_le = nondet_vc_ll(); g_d = nondet_vc_ll(); g_s1 = nondet_vc_ll(); g_s2 = nondet_vc_ll(); g_k = nondet_vc_ll(); g_j = nondet_vc_ll(); g_ch = nondet_vc_char(); g_xj = nondet_vc_char(); g_made = 0; g_skip = 0; g_cl = 0;
	ASSUME(g_ln >= 0 && g_ln < 1000000000 && g_le >= 0 && g_le < 1000000000 && g_d >= -1 && g_d < g_ln && g_s1 >= -1 && g_s1 < g_ln && g_s2 >= -1 && g_s2 < g_ln && g_k >= 0 && g_j >= 0);
	ASSUME((g_d != g_s1 || g_d < 0) && (g_d != g_s2 || g_d < 0) && (g_s1 != g_s2 || g_s1 < 0) && g_ch != 0 && (g_ch == '.') <= (g_k <= g_d) && (g_k != g_d || g_ch == '.') && g_xj != 0);
	char *r = change_extension(g_name, g_ext); long base = g_d >= 0 && LASTSL < g_d ? g_d : g_ln;
	CHECK(r == g_b && g_made == 1 && cl() == base + 1 + g_le && g_cl == cl(), "length"); CHECK(IMP(g_k < base, r[g_k] == g_ch), "the name without its extension"); CHECK(r[base] == '.' && IMP(g_j < g_le, r[base + 1 + g_j] == g_xj) && r[base + 1 + g_le] == 0, "the new extension"); REACH();
}
HARNESS(h_sep) {
	g_n = nondet_vc_ll(); g_k = nondet_vc_ll(); ASSUME(g_n >= 0 && g_n < 1000000000 && g_k >= 0 && g_k < g_n); g_s = (char *)malloc(g_n + 1); ASSUME(g_s != 0 && g_s[g_n] == 0); g_ch = g_s[g_k];
	char *r = fix_filename(g_s); CHECK(r == g_s && g_s[g_k] == (g_ch == '\\' ? '/' : g_ch) && g_s[g_n] == 0, "only separators are changed, all of them"); REACH();
}
HARNESS(h_abs) {
	char b[4]; b[0] = nondet_vc_char(); b[1] = b[0] ? nondet_vc_char() : 0; b[2] = nondet_vc_char(); b[3] = 0; g_skip = b; g_made = 0; g_ln = nondet_vc_ll();
	bool r = is_abs_path(g_name); CHECK(r == (b[0] == '/' || b[0] == '\\' || (b[0] && b[1] == ':' && sp_alpha(b[0]))), "absolute"); CHECK(!is_abs_path(0), "no name"); REACH();
}
#else
extern list_t X; extern long g_left; extern int g_cand; char g_dd[2], g_fn[2], g_path[2], g_dup[2]; expand_buf_t g_eb; int g_step, g_held, g_ok, g_cand, g_abs, g_absok, g_ebs; long g_left; list_t X; char *g_dir;
char *vc_dup(const char *s); void vc_free(void *p); int vc_access(const char *f, int m); FILE *vc_fopen(const char *f, const char *m); int vc_fclose(FILE *f); int vc_fgetc(FILE *f); void vc_write(int c); size_t vc_strlen(const char *s); int vc_insert(expand_buf *b, int o, const char *t, size_t n); void vc_sn(char *b, size_t n, const char *f, const char *s);
#define strdup vc_dup
#define free vc_free
#define access vc_access
#define fopen vc_fopen
#define fclose vc_fclose
#define fgetc vc_fgetc
#define strlen vc_strlen
#undef snprintf
#define snprintf vc_sn
char g_q[4], g_fp[4], g_alloc[4], g_old[4], g_ls[4], g_txt[4]; int g_inc, g_found, g_open, g_more, g_c, g_pend, g_rd, g_bmp, g_cont, g_ran, g_bm, g_banner, g_i, g_prep, g_rel; long g_count, g_len, g_out; unsigned g_pc; FILE *g_f; char *g_nm; char g_c0; int g_kok;
char *full_path(const char *s);
#define DIRX (dir == (g_left ? (list_t *)&X : (list_t *)0) && g_left >= 0 && X.data == (void *)g_dd)
#define NEXTDIR if (dir) { CHECK(dir == (list_t *)&X && g_left > 0, "a node of the list"); ASSUME(X.next == (g_left > 1 ? (list_t *)&X : (list_t *)0)); g_left--; g_cand = 1; g_step = 0; g_ok = nondet_vc_char() & 1; }
#include "preop.cpp"
#ifdef VC_PATH
bool is_abs_path(const char *f) { CHECK(f == g_fn, "the name"); return g_abs; }
int vc_access(const char *f, int m) { CHECK(m == R_OK, "readable"); if (f == g_fn) return g_absok ? 0 : -1; if (f == 0) return -1; CHECK(f == g_path && g_held == 1 && g_step == 5, "the candidate, with / as separator"); return g_ok ? 0 : -1; }
char *vc_dup(const char *s) { CHECK(s == g_fn, "the name"); return g_dup; }
void vc_free(void *p) { if (p) { CHECK(p == g_path && g_held == 1, "released once"); g_held = 0; } }
expand_buf_t *eb_init(int n) { CHECK(g_step == 0 && g_ebs == 0, "one buffer"); g_ebs = 1; g_step = 1; return &g_eb; }
int eb_append(expand_buf_t *b, const char *t, size_t nn) { long n = (long)nn; CHECK(b == &g_eb && g_ebs == 1 && (g_step == 1 ? t == g_dd && n == -1 : g_step == 2 ? t[0] == '/' && (n == 1 || (t[1] == 0 && n == -1)) : g_step == 3 && t == g_fn && n == -1), "directory, separator, name"); g_step++; return 0; }
char *eb_extract(expand_buf_t *b) { CHECK(b == &g_eb && g_step == 4 && g_held == 0, "the whole path"); g_held = 1; return g_path; }
char *fix_filename(char *s) { CHECK(s == g_path && g_step == 4 && g_held, "the path"); g_step = 5; return s; }
void eb_free(expand_buf_t *b) { CHECK(b == &g_eb && g_ebs == 1, "released once"); g_ebs = 0; }
HARNESS(h_path) {
	g_abs = nondet_vc_char() & 1; g_absok = nondet_vc_char() & 1; g_left = nondet_vc_ll(); ASSUME(g_left >= 0 && g_left < 100000000); g_step = g_held = g_ok = g_cand = g_ebs = 0; X.data = g_dd; X.next = g_left > 1 ? &X : 0; include_dirs = g_left ? &X : 0;
	char *r = full_path(g_fn);
	if (g_abs && g_absok) CHECK(r == g_dup && g_held == 0 && g_cand == 0, "an absolute name that exists is taken as it is"); else { CHECK(r == (g_ok ? (char *)g_path : (char *)0) && g_held == g_ok && g_ebs == 0, "the first directory that has the file"); CHECK(g_ok || g_left == 0, "all were tried"); } REACH();
}
#else
FILE *vc_fopen(const char *f, const char *m) { CHECK(f == g_fp && m[0] == 'r' && m[1] == 'b', "the file found"); return g_open ? (FILE *)g_txt : 0; }
int vc_fclose(FILE *f) { CHECK(f == (FILE *)g_txt && g_open == 1, "closed once"); g_open = 2; return 0; }
int vc_fgetc(FILE *f) { CHECK(f == (FILE *)g_txt && g_open == 1 && g_pend == 0, "every byte is written before the next is read"); if (g_len == 0) return EOF; g_len--; g_pend = 1; g_c = (unsigned char)nondet_vc_char(); return g_c; }
int write_out(int c) { CHECK(g_pend == 1 && (unsigned char)c == g_c, "the byte read"); g_pend = 0; g_out++; return c; }
bool is_end_of_code_line(const char *p) { return p == g_q ? g_c0 : sp_eocl(*p); }
bool read_expr_impl(const char **const p, char *w, const char *d) { CHECK(*p == g_q && d[0] == 0, "the rest of the line"); g_nm = w; w[g_n] = 0; g_kok = !(g_k < g_n) || w[g_k] == '\\' || !sp_eocl(w[g_k]); *p = g_q + 2; return true; }
char *fix_filename(char *s) { CHECK(s == g_nm || s == g_alloc, "the name"); if (s == g_nm && g_inc) CHECK(g_nm[g_i] == 0, "all of the name was looked at"); return s; }
char *skip_whitespace(const char *s) { CHECK(s == g_nm, "the name"); ASSUME(g_o >= 0 && g_o <= g_n && g_o < 255); return (char *)s + g_o; }
char *full_path(const char *s) { long o = g_nm[g_o] == '"' ? 1 : 0; CHECK(s == g_nm + g_o + o, "without white space and quotes"); g_rd = 1; return g_found ? (char *)g_fp : (char *)0; }
char *vc_dup(const char *s) { CHECK(s == g_fp && g_found == 1, "the path"); return g_alloc; }
void vc_free(void *p) { if (p) { CHECK(p == g_fp && g_found == 1, "released once"); g_found = 2; } }
#ifdef VC_IMPORT
HARNESS(h_import) {
	gh_reset(); g_n = nondet_vc_ll(); ASSUME(g_n >= 0 && g_n <= 255); g_o = nondet_vc_ll(); g_k = 0; g_found = nondet_vc_char() & 1; g_open = g_found && (nondet_vc_char() & 1); g_inc = g_pend = g_rd = 0; g_out = 0; g_len = nondet_vc_ll(); ASSUME(g_len >= 0 && g_len < 1000000000); long len = g_len; g_c0 = nondet_vc_char() & 1; program_counter = g_pc = (unsigned)nondet_vc_ll(); int f = g_found, o = g_open;
	char *r = handle_preop_import(g_q);
	if (g_c0) CHECK(r == g_q && gh_showerr == 1 && g_rd == 0, "a name is needed"); else CHECK(r == g_q + 2, "goes on behind");
	if (g_c0 || !o) CHECK(g_out == 0 && program_counter == g_pc && gh_err == !g_c0, "an error, nothing imported");
	else CHECK(g_out == len && g_len == 0 && g_pend == 0 && program_counter == g_pc + (unsigned)len && gh_err == 0 && gh_showerr == 0 && g_open == 2, "imported whole");
	CHECK(g_c0 || !f || g_found == 2, "the path is released"); REACH();
}
#else
bool IsFileBitmap(FILE *f) { CHECK(f == (FILE *)g_txt && g_open == 1, "open"); return g_bmp; }
void handle_bitmap(FILE *f) { CHECK(f == (FILE *)g_txt && g_open == 1 && g_bmp, "a bitmap"); g_bm++; }
char *get_file_contents(const char *f) { CHECK(f == g_fp && g_found == 1, "the path"); return g_cont ? g_txt + 1 : 0; }
void release_file_contents(char *p) { CHECK(p == g_txt + 1 && g_ran == 1 && g_rel == 0, "released after its use"); g_rel = 1; }
list_t *list_prepend(list_t *l, void *d) { CHECK(d == g_alloc && g_prep == 0 && l == &X, "its name"); g_prep = 1; return l; }
void do_listing_for_line(char *p) {} char *skip_to_next_line(const char *p) { return (char *)p; } size_t vc_strlen(const char *s) { return 0; }
int eb_insert(expand_buf *b, int o, const char *t, size_t n) { CHECK(g_banner != (g_ran ? 1 : 0) - 1, "banner"); g_banner++; return o; }
void vc_sn(char *b, size_t n, const char *f, const char *s) { CHECK(s == (g_ran ? g_old : g_alloc), "the file that follows is announced"); }
void run_first_pass(char *p) { CHECK(p == g_txt + 1 && curr_input_file == g_alloc && g_prep == 1 && g_ran == 0 && g_open == 2, "the file is assembled, under its own name"); g_ran = 1; curr_input_file = (char *)nondet_vc_ll(); line_num = (int)nondet_vc_ll(); in_macro = (int)nondet_vc_ll(); line_start = (char *)nondet_vc_ll(); listing_for_line_done = nondet_vc_char() & 1; }
HARNESS(h_include) {
	gh_reset(); g_n = nondet_vc_ll(); ASSUME(g_n >= 0 && g_n <= 255); g_o = nondet_vc_ll(); g_k = nondet_vc_ll(); ASSUME(g_k >= 0 && g_k <= 255); g_found = nondet_vc_char() & 1; g_open = g_found && (nondet_vc_char() & 1); g_inc = 1; g_i = g_rd = g_ran = g_bm = g_prep = g_banner = g_rel = 0; g_c0 = nondet_vc_char() & 1; g_bmp = nondet_vc_char() & 1; g_cont = nondet_vc_char() & 1; int f = g_found, o = g_open; input_files = &X; mode = nondet_vc_char(); listing_on = nondet_vc_char() & 1;
	curr_input_file = g_old; line_num = (int)nondet_vc_ll(); in_macro = (int)nondet_vc_ll(); line_start = g_ls; int l0 = line_num, m0 = in_macro;
	char *r = handle_preop_include(g_q);
	CHECK(curr_input_file == g_old && line_num == l0 && in_macro == m0 && line_start == g_ls, "the including file goes on where it was");
	if (g_c0) CHECK(r == g_q && gh_showerr == 1 && g_rd == 0, "a name is needed");
	else { CHECK(r == g_q + 2, "goes on behind"); if (g_rd) { CHECK(g_k >= g_i || g_kok, "a name on one line"); CHECK(g_ran == (o && !g_bmp && g_cont) && g_bm == (o && g_bmp) && g_rel == g_ran && g_prep == g_ran, "assembled, or its bitmap imported, once"); CHECK((gh_err + gh_showerr > 0) == !(g_ran || g_bm) && (!f || g_found == 2), "or an error"); } else CHECK(g_ran == 0 && g_bm == 0 && gh_showerr == 1, "a name that goes over the line's end is an error"); }
	CHECK(g_banner == (g_ran && (mode & MODE_LIST) && listing_on ? 2 : 0), "the listing names the file, before and behind"); REACH();
}
#endif
#endif
#endif
