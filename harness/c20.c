/* C20 the command line and the exit status: main, run_assembly (main.cpp), show_error, show_warning, show_fatal_error (utils.cpp). */
#ifdef NATIVE
#include <string>
#include <vector>
#include <map>
#include <sys/timeb.h>
#include <unistd.h>
#endif
#define VC_REAL_SHOW
#include "base.h"
#ifdef NATIVE
static int vc_printf(const char *, ...) { return 0; } static int vc_fprintf(FILE *, const char *, ...) { return 0; }
WORD user_attributes; WORD save_console_attributes() { return 0; } BOOL set_console_attributes(unsigned short) { return 1; } void restore_console_attributes(WORD) {} void restore_console_attributes_at_exit() {}
#include "expand_buf.cpp"
#include "modp_ascii.cpp"
#include "list.cpp"
#define printf vc_printf
#define vprintf(t, a) 0
#define putchar(c) 0
#define puts(s) 0
#define fprintf vc_fprintf
#include "utils.cpp"
#undef search_labels
#define MAX_(a, b) ((int)(a) > (int)(b) ? (int)(a) : (int)(b))
static std::map<std::string, std::string> g_defs; static std::vector<std::string> g_log, g_made; static define_t g_d; static bool g_cs, g_inited; static int g_raise[3], g_ses; static int g_can; opcode *all_opcodes; expr_t *expr_list, *expr_list_tail; output_t *output_list, *output_list_tail; opcode opcode_list_ez80[1];
struct Snap { unsigned mode; bool cs, col; std::vector<std::string> dirs; std::map<std::string, std::string> defs; std::string in, out, text; } g_snap; static bool g_ran; static std::map<std::string, define_t> g_def; static std::string g_lst, g_bin, g_lab; static int g_binlen; static bool g_lstok;
void init_storage() { g_inited = true; } void free_storage() {} void set_case_sensitive(bool b) { g_cs = b; }
define_t *add_define(char *n, bool *, bool) { std::string s = n; free(n); if (s.empty()) return 0; g_def[s].name = (char *)"x"; return &g_def[s]; }
void set_define(define_t *d, const char *t, int, bool) { d->contents = strdup(t); }
label_t *search_labels(const char *) { return 0; } define_t *search_defines(const char *, bool) { return 0; }
int StartSPASMErrorSession() { return ++g_ses; } void EndSPASMErrorSession(int n) { g_log.push_back("end"); g_ses--; } void ReplaySPASMErrorSession(int, bool) { g_log.push_back("replay"); } void ReplayFatalSPASMErrorSession(int) { g_log.push_back("fatal"); } void ClearSPASMErrorSessions() {}
static void raise_(int k) { if ((int)exit_code < k) exit_code = (EXIT_STATUS)k; }
void run_first_pass(char *p) { g_ran = true; g_snap = Snap(); g_snap.mode = mode; g_snap.cs = g_cs; g_snap.col = use_colors; for (list_t *l = include_dirs; l; l = l->next) g_snap.dirs.push_back((char *)l->data); for (auto &d : g_def) g_snap.defs[d.first] = d.second.contents; g_snap.in = curr_input_file; g_snap.text = p; CHECK(exit_code == EXIT_NORMAL && program_counter == 0 && !in_macro && !error_occurred && out_ptr == output_contents, "a fresh start"); g_log.push_back("one"); *out_ptr++ = 1; *out_ptr++ = 2; raise_(g_raise[0]); if (mode & MODE_LIST) { eb_append(listing_buf, "abc", 3); listing_offset = 3; } }
void run_second_pass() { g_log.push_back("two"); raise_(g_raise[1]); }
void write_labels(char *f) { g_lab = f; g_log.push_back("lab"); }
void write_file(const unsigned char *c, int n, const char *f) { CHECK(c == output_contents && n == 2, "the output"); g_bin = f; g_log.push_back("bin"); raise_(g_raise[2]); }
bool parse_num(const char *, int *) { return false; } bool parse_num_now(const char *, int *) { return false; }
unsigned get_num_labels_() { return 0; } int get_num_labels() { return 0; } int get_num_defines() { return 0; } label_t *add_label(char *, int) { return 0; } void print_help_(void);
static FILE *vc_fopen(const char *f, const char *) { g_lst = f; return g_lstok ? (FILE *)&g_lst : 0; } static int vc_fclose(FILE *) { return 0; } static size_t vc_fwrite(const void *p, size_t s, size_t n, FILE *) { CHECK(s * n == 3 && !memcmp(p, "abc", 3), "the listing"); return n; } static char *vc_contents(const char *f) { return g_can ? strdup("text") : 0; }
#define fopen vc_fopen
#define fclose vc_fclose
#define fwrite vc_fwrite
#define get_file_contents vc_contents
#define exit(x) throw (int)(x)
#define atexit(x)
#define main spasm_main
#include "main.cpp"
#undef main
#undef exit
extern "C" void h_any(void) {
	static const char *A[] = {"-O", "-T", "-C", "-L", "-S", "-E", "-N", "-A", "-I", "-Ia,b;c", "-D", "-Dx=5", "-Dy", "-V", "-Vret", "-H", "-Q", "in.asm", "out.8xp", "d.1/third", "-D=3", "/d1/e.2/in"};
	char q[16]; int n = (int)vc_in("n", 0, 6); std::vector<std::string> a(1, "spasm"); for (int i = 0; i < n; i++) { sprintf(q, "a%d", i); a.push_back(A[vc_in(q, 0, 21)]); }
	std::vector<std::vector<char>> store; std::vector<char *> argv; for (auto &s : a) store.push_back(std::vector<char>(s.c_str(), s.c_str() + s.size() + 1)); for (auto &s : store) argv.push_back(&s[0]); argv.push_back(0);
	for (int i = 0; i < 3; i++) { sprintf(q, "e%d", i); g_raise[i] = (int)vc_in(q, 0, 5); if (g_raise[i] > 3) g_raise[i] = 0; } g_can = (int)vc_in("can", 0, 9) > 0; g_lstok = vc_in("lst", 0, 9) > 0; g_ses = 0; g_log.clear(); g_def.clear(); g_cs = g_inited = g_ran = false; include_dirs = input_files = 0; curr_input_file = output_filename = input_contents = 0; exit_code = EXIT_NORMAL; g_bin = g_lab = g_lst = ""; mode = 77; listing_buf = 0;
	/* model */
	Snap w; w.mode = MODE_NORMAL; w.cs = false; w.col = true; bool help = n == 0, bad = false, isin = false; std::string out; bool hasout = false;
	for (int i = 1; i <= n && !help && !bad; i++) { std::string s = a[i]; if (s[0] != '-') { if (!isin) { w.in = s; isin = true; } else if (!hasout) { out = s; hasout = true; } continue; } std::string v = s.substr(2);
		switch (s[1]) { case 'O': w.mode &= ~MODE_NORMAL; break; case 'T': w.mode |= MODE_LIST; break; case 'C': w.mode |= MODE_CODE_COUNTER; break; case 'L': w.mode |= MODE_SYMTABLE; break; case 'S': w.mode |= MODE_STATS; break; case 'E': w.mode |= MODE_EZ80; break; case 'N': w.col = false; break; case 'A': w.cs = true; break; case 'H': help = true; break;
			case 'I': case 'D': case 'V': if (v.empty()) { if (i == n) { if (s[1] == 'V') bad = true; break; } v = a[++i]; } if (s[1] == 'D') ASSUME(v.find(';') == std::string::npos);
				if (s[1] == 'I') { std::string t; for (char c : v + ",") if (c == ',' || c == ';') { if (!t.empty()) w.dirs.push_back(t); t = ""; } else t += c; } else if (s[1] == 'V') { w.mode |= MODE_COMMANDLINE; w.in = "-v"; isin = true; w.text = v + "\n"; out = "-v.bin"; hasout = true; }
				else { size_t e = v.find('='); std::string nm = v.substr(0, e); if (!nm.empty()) w.defs[nm] = e == std::string::npos || e + 1 == v.size() ? "1" : v.substr(e + 1); } break;
			default: bad = true; } }
	int ret = -1, thrown = -1; try { ret = spasm_main(n + 1, &argv[0]); } catch (int x) { thrown = x; }
	if (help) { CHECK(thrown == EXIT_NORMAL && !g_ran, "help"); return; } CHECK(thrown == -1, "returns");
	if (bad || !isin) { CHECK(ret != 0 && !g_ran, "a bad command line fails"); return; }
	if (!(w.mode & MODE_COMMANDLINE) && !g_can) { CHECK(ret == EXIT_FATAL_ERROR && !g_ran, "no input"); return; }
	if (!hasout) { size_t d = w.in.rfind('.'), sl = w.in.rfind('/'); out = (d != std::string::npos && (sl == std::string::npos || sl < d) ? w.in.substr(0, d) : w.in) + ".bin"; } size_t d = out.rfind('.'), sl = out.rfind('/'); std::string base = d != std::string::npos && (sl == std::string::npos || sl < d) ? out.substr(0, d) : out;
	CHECK(g_ran && g_snap.mode == w.mode && g_snap.cs == w.cs && g_snap.col == w.col && g_snap.in == w.in && g_snap.text == (w.mode & MODE_COMMANDLINE ? w.text : "text") && g_inited, "the options say how to assemble"); CHECK(g_snap.defs == w.defs, "definitions"); CHECK(IMP(w.in[0] == '/', g_snap.dirs[0] == "/d1/e.2"), "the input's directory is searched first"); CHECK(g_snap.dirs.size() == w.dirs.size() + 1 && std::vector<std::string>(g_snap.dirs.begin() + 1, g_snap.dirs.end()) == w.dirs, "directories, in order");
	int m = g_raise[0]; std::vector<std::string> l = {"one", "fatal", "end"}; if (w.mode & (MODE_SYMTABLE | MODE_NORMAL | MODE_LIST)) { l.insert(l.end(), {"two", "replay", "end"}); m = MAX_(m, g_raise[1]); if (w.mode & MODE_SYMTABLE) { l.insert(l.end(), {"lab", "fatal", "end"}); CHECK(g_lab == base + ".lab", "symbol table"); } if (w.mode & MODE_NORMAL) { l.insert(l.end(), {"bin", "fatal", "end"}); m = MAX_(m, g_raise[2]); CHECK(g_bin == out, "output"); } if (w.mode & MODE_LIST) { CHECK(g_lst == base + ".lst", "listing"); if (!g_lstok) m = EXIT_FATAL_ERROR; } }
	CHECK(g_log == l, "the passes, in order"); CHECK(ret == m, "the exit status"); 
	exit_code = (EXIT_STATUS)vc_in("x", 0, 3); int x = exit_code; error_occurred = false; curr_input_file = (char *)"f"; switch (vc_in("s", 0, 2)) { case 0: show_error("a"); CHECK((int)exit_code == MAX_(x, 2) && !error_occurred, "an error"); break; case 1: show_warning("a"); CHECK((int)exit_code == MAX_(x, 1) && !error_occurred, "a warning"); break; default: show_fatal_error("a"); CHECK((int)exit_code == 3 && error_occurred, "a fatal error"); }
}
#define H(n) extern "C" void n(void) { h_any(); }
H(h_main) H(h_run) H(h_show)
#elif defined(VC_SHOW)
WORD save_console_attributes(void) { return 0; } BOOL set_console_attributes(unsigned short a) { return 1; } void restore_console_attributes(WORD a) {}
int g_text; char g_msg[2]; int vc_printf(const char *f, ...) { return 0; } int vc_vprintf(const char *f) { CHECK(f == g_msg && g_text == 0, "the message, once"); g_text = 1; return 0; }
#define printf vc_printf
#define vprintf(t, a) vc_vprintf(t)
#define putchar(c) 0
#include "utils.cpp"
HARNESS(h_show) {
	exit_code = (EXIT_STATUS)(nondet_vc_char() & 3); int x = exit_code, k = nondet_vc_char(); error_occurred = nondet_vc_char() & 1; bool e = error_occurred; g_text = 0;
	if (k == 0) show_error(g_msg); else if (k == 1) show_warning(g_msg); else show_fatal_error(g_msg);
	int s = k == 0 ? EXIT_ERRORS : k == 1 ? EXIT_WARNINGS : EXIT_FATAL_ERROR; CHECK((int)exit_code == (x > s ? x : s) && g_text == 1 && error_occurred == (e || (k != 0 && k != 1)), "the exit status is the worst that was reported"); REACH();
}
#else
#include <sys/timeb.h>
int vc_printf(const char *f, ...); int vc_puts(const char *s);
#undef assert
#define assert(x) CHECK(x, "the code's own assertion")
#define printf vc_printf
#define fprintf(f, ...) vc_printf(__VA_ARGS__)
#define puts vc_puts
#define ftime vc_ftime
#define getcwd vc_cwd
#define strcpy vc_strcpy
#define strcat vc_strcat
#define strlen vc_strlen
#define strdup vc_dup
#define strtok vc_tok
#define free vc_free
#define malloc vc_malloc
#define exit vc_exit
#define atexit(x)
#define fopen vc_fopen
#define fclose vc_fclose
#define fwrite vc_fwrite
#define EV(n, c) CHECK(g_at == (n) && (c), "each step once, in its place")
int vc_ftime(struct timeb *t); char *vc_cwd(char *b, size_t n); char *vc_strcpy(char *d, const char *s); char *vc_strcat(char *d, const char *s); size_t vc_strlen(const char *s); char *vc_dup(const char *s); char *vc_tok(char *s, const char *d); void vc_free(void *p); void *vc_malloc(size_t n); void vc_exit(int c); FILE *vc_fopen(const char *n, const char *m); int vc_fclose(FILE *f); size_t vc_fwrite(const void *p, size_t s, size_t n, FILE *f);
char g_arg[4], g_next[4], g_dup[4], g_start[4], g_file[4], g_txt[4], g_tokbuf[4], g_path[4], g_outn[4], g_lab[4], g_lst[4], g_lbuf[4]; char g_ch; int g_opt, g_mode0, g_toks, g_at, g_ses, g_x, g_open, g_cont, g_want, g_wrote; long g_sl, g_ln, g_k, g_n; bool g_cs; list_t D; unsigned char g_o[8]; long g_olen; expand_buf_t g_eb;
#ifdef VC_RUN
opcode *all_opcodes;
#else
opcode opcode_list_ez80[1]; opcode *all_opcodes; opcode *g_ops0; char *g_in0, *g_out0; int g_col0, g_cs0, g_cs1, g_sto0; list_t *g_inc0, *g_inc; int g_arg0, g_argc, g_started, g_appended, g_added, g_set, g_inits, g_ran, g_helped, g_empty, g_noname, g_eq, g_bad, g_len2, g_comm, g_blank, g_freed, g_fin; char *g_param; define_t g_def; char g_name1[4], g_in1[4], g_out1[4], g_line[4], g_val[4];
void arg_start(int c, int n, char **v, bool cs, bool sto);
#endif
#define OPT (g_arg[0] == '-' ? g_arg[1] : 0)
#define HAS (g_param != 0)
#define ARG_C (curr_arg == g_arg0 + 1 + ((OPT == 'I' || OPT == 'D' || OPT == 'V') && !g_len2 && HAS))
#define ARG_MODE (mode == (unsigned)(OPT == 'O' ? g_mode0 & ~MODE_NORMAL : OPT == 'T' ? g_mode0 | MODE_LIST : OPT == 'C' ? g_mode0 | MODE_CODE_COUNTER : OPT == 'L' ? g_mode0 | MODE_SYMTABLE : OPT == 'S' ? g_mode0 | MODE_STATS : OPT == 'E' ? g_mode0 | MODE_EZ80 : OPT == 'V' ? g_mode0 | MODE_COMMANDLINE : g_mode0))
#define ARG_FLAGS ((use_colors != 0) == (OPT == 'N' ? 0 : g_col0) && (case_sensitive != 0) == (OPT == 'A' ? 1 : g_cs0) && all_opcodes == (OPT == 'E' ? (opcode *)opcode_list_ez80 : g_ops0) && (is_storage_initialized != 0) == (g_sto0 || g_inits == 1) && (OPT != 'D' || !HAS || is_storage_initialized) && (OPT == 'D' || g_inits == 0) && g_inits >= 0 && g_inits <= 1)
#define ARG_DEF (g_appended == (OPT == 'I' && HAS ? g_n : 0) && (g_added != 0) == (OPT == 'D' && HAS && !g_noname) && (g_added == 0 || g_def.contents == g_val))
#define ARG_FILES (curr_input_file == (OPT == 'V' ? (char *)g_in1 : g_arg[0] != '-' && g_in0 == g_start ? (char *)g_file : g_in0) && output_filename == (OPT == 'V' ? (char *)g_out1 : g_arg[0] != '-' && g_in0 != g_start && g_out0 == 0 ? (char *)g_outn : g_out0) && (OPT != 'V' || (input_contents == g_line && g_comm == 2)))
#define ARG_KNOWN (g_arg[0] != '-' || OPT == 'O' || OPT == 'T' || OPT == 'C' || OPT == 'L' || OPT == 'S' || OPT == 'E' || OPT == 'N' || OPT == 'A' || OPT == 'I' || OPT == 'D' || OPT == 'V')
#define ARG_OK (g_started == 0 || (ARG_C && ARG_MODE && ARG_FLAGS && ARG_DEF && ARG_FILES && ARG_KNOWN))
#define ARGINV (1 <= curr_arg && curr_arg <= argc && starting_input_file == g_start && curr_input_file != 0 && g_cs1 == (case_sensitive != 0) && g_appended >= 0 && g_appended <= 100 && g_arg0 >= 0 && g_arg0 <= 1000000 && (g_started == 0 || g_started == 1) && (g_started || (!case_sensitive && curr_arg == 1)) && g_fin == 0 && (!(mode & MODE_COMMANDLINE) || curr_input_file != g_start) && ARG_OK)
#include "main.cpp"
#undef free
#undef malloc
int vc_printf(const char *f, ...) { return 0; } int vc_puts(const char *s) { return 0; } WORD user_attributes; void restore_console_attributes_at_exit(void) {} WORD save_console_attributes(void) { return 0; }
expr_t *expr_list, *expr_list_tail; output_t *output_list, *output_list_tail;
#ifdef VC_RUN
bool is_abs_path(const char *f) { CHECK(f == g_file, "the input file"); return g_opt; }
char *get_file_contents(const char *f) { CHECK(f == g_file && g_at == 0, "the input file"); return g_cont ? (char *)g_txt : (char *)0; }
int vc_ftime(struct timeb *t) { t->time = 0; t->millitm = 0; return 0; }
char *vc_cwd(char *b, size_t n) { CHECK(b == temp_path && n == sizeof temp_path && !g_opt, "the current directory"); g_wrote = 1; return b; }
char *vc_strcpy(char *d, const char *s) { CHECK(d == temp_path && g_opt, "the path of the input file"); if (s == g_file) { g_wrote = 1; ASSUME(temp_path[g_k] == g_ch && temp_path[g_sl] == '/'); } return d; }
size_t vc_strlen(const char *s) { CHECK(s == temp_path || s == g_file, "the path"); return g_ln; }
char *vc_dup(const char *s) { CHECK(s == temp_path && g_wrote && IMP(g_opt, temp_path[g_k] == g_ch || (temp_path[g_k] == 0 && g_k >= g_sl && (g_k == 0 || g_ch == '/' || g_ch == '\\'))), "the directory of the input file"); return g_dup; }
list_t *list_prepend(list_t *l, void *d) { CHECK(d == g_dup && l == include_dirs && g_at == 0, "is searched first"); g_at = 1; return &D; }
void list_free(list_t *l, bool f, void (*cb)(void *)) { CHECK(f && (l == &D || l == input_files), "released with its data"); }
expand_buf_t *eb_init(int n) { return &g_eb; } void eb_free(expand_buf_t *b) { CHECK(b == &g_eb && g_at == 9, "after its use"); }
int StartSPASMErrorSession(void) { CHECK(g_ses == 0, "one session at a time"); g_ses = 1; return 1; }
void ReplayFatalSPASMErrorSession(int n) { CHECK(n == 1 && (g_at == 2 || g_at == 5 || g_at == 7) && g_ses == 1, "its errors are shown"); g_ses = 2; }
void ReplaySPASMErrorSession(int n, bool f) { CHECK(n == 1 && g_at == 4 && g_ses == 1 && !f, "all errors are shown"); g_ses = 2; }
void EndSPASMErrorSession(int n) { CHECK(n == 1 && g_ses == 2, "and the session closed"); g_ses = 0; if (g_at == 2) g_at = 3; }
void run_first_pass(char *p) { EV(1, g_ses == 1 && p == g_txt && exit_code == EXIT_NORMAL); CHECK(program_counter == 0 && stats_codesize == 0 && stats_datasize == 0 && stats_mintime == 0 && stats_maxtime == 0 && last_label == 0 && !error_occurred && in_macro == 0 && line_num == 0 && old_line_num == 0 && line_start == 0 && cur_buf == 0 && curr_reusable == 0 && total_reusables == 0 && expr_list == 0 && expr_list_tail == 0 && output_list == 0 && output_list_tail == 0 && out_ptr == output_contents && include_dirs == &D && !listing_for_line_done && listing_offset == 0, "a fresh start"); CHECK(IMP(mode & MODE_LIST, listing_buf == &g_eb && listing_on), "listing"); g_at = 2; out_ptr = g_o + g_olen; exit_code = (EXIT_STATUS)g_x; }
void run_second_pass(void) { EV(3, g_ses == 1); g_at = 4; }
char *change_extension(const char *f, const char *e) { CHECK(f == g_outn && e[0] == 'l' && e[3] == 0 && ((e[1] == 'a' && e[2] == 'b') || (e[1] == 's' && e[2] == 't')), "named after the output"); return e[1] == 'a' ? g_lab : g_lst; }
void write_labels(char *f) { CHECK(g_at == 4 && g_ses == 1 && f == g_lab && (mode & MODE_SYMTABLE), "the symbol table"); g_at = 5; }
void write_file(const unsigned char *c, int n, const char *f) { CHECK(g_at == (mode & MODE_SYMTABLE ? 5 : 4) && g_ses == 1 && c == g_o && n == g_olen && f == g_outn && (mode & MODE_NORMAL), "the output"); g_at = 7; }
FILE *vc_fopen(const char *n, const char *m) { CHECK(n == g_lst && m[0] == 'w' && g_at == (mode & MODE_NORMAL && output_filename ? 7 : mode & MODE_SYMTABLE ? 5 : 4), "the listing"); g_at = 8; return g_open ? (FILE *)g_tokbuf : (FILE *)0; }
size_t vc_fwrite(const void *p, size_t s, size_t n, FILE *f) { CHECK(p == g_lbuf && s == 1 && n == listing_offset && f == (FILE *)g_tokbuf && g_at == 8, "is written whole"); g_at = 9; return g_want ? n : n - 1; }
int vc_fclose(FILE *f) { CHECK(f == (FILE *)g_tokbuf && g_at == 9, "closed"); return 0; }
void release_file_contents(char *p) { CHECK(p == g_txt && !(mode & MODE_COMMANDLINE) && g_at == 3, "released after its use"); }
unsigned get_num_labels_(void) { return 0; } int get_num_labels(void) { return 0; } int get_num_defines(void) { return 0; }
void vc_free(void *p) { CHECK(p == g_lab || p == g_lst, "names"); }
HARNESS(h_run) {
	mode = nondet_vc_char() & 255; g_opt = nondet_vc_char() & 1; g_cont = nondet_vc_char() & 1; g_open = nondet_vc_char() & 1; g_want = nondet_vc_char() & 1; g_x = nondet_vc_char() & 3; g_at = g_ses = g_wrote = 0; g_ln = nondet_vc_ll(); g_sl = nondet_vc_ll(); g_k = nondet_vc_ll(); ASSUME(g_ln > 0 && g_ln < 4096 && g_sl >= 0 && g_sl < g_ln && g_k >= 0 && g_k < g_ln); g_ch = nondet_vc_char(); ASSUME(g_ch != 0 && (g_k != g_sl || g_ch == '/')); g_olen = nondet_vc_char() & 7;
	curr_input_file = g_file; output_filename = g_outn; output_contents = g_o; input_contents = (mode & MODE_COMMANDLINE) ? (char *)g_txt : (char *)0; input_files = 0; g_eb.start = g_lbuf; include_dirs = 0; listing_buf = 0; exit_code = (EXIT_STATUS)(nondet_vc_char() & 3); unsigned m = mode;
	int r = run_assembly(); CHECK(mode == m, "the mode stays");
	if (!(m & MODE_COMMANDLINE) && !g_cont) CHECK(r == EXIT_FATAL_ERROR && g_at == 0, "no input, no assembly");
	else if (!(m & (MODE_SYMTABLE | MODE_NORMAL | MODE_LIST))) CHECK(r == g_x && g_at == 3, "one pass");
	else if (m & MODE_LIST) CHECK((r == (g_open && (g_want || listing_offset == (size_t)-1) ? g_x : EXIT_FATAL_ERROR)) && g_at == (g_open ? 9 : 8), "everything asked for was written");
	else CHECK(r == g_x && g_at == (m & MODE_NORMAL ? 7 : 5), "everything asked for was written");
	CHECK(g_ses == 0, "sessions are closed"); REACH();
}
#else
/* one argument: what was before it (arg_start), what has to be after it (arg_ok) */
#define opt() OPT
void arg_start(int c, int n, char **v, bool cs, bool sto) {
	g_arg[0] = nondet_vc_char(); g_arg[1] = nondet_vc_char(); g_len2 = nondet_vc_char() & 1; if (!g_arg[0]) g_arg[1] = 0; if (!g_arg[1]) g_len2 = 0; g_arg[2] = g_len2 ? nondet_vc_char() : 0; ASSUME(!g_len2 || g_arg[2]); v[c] = g_arg; if (c + 1 < n) v[c + 1] = g_next;
	g_param = g_len2 ? g_arg + 2 : c + 1 < n ? (char *)g_next : (char *)0; g_arg0 = c; g_argc = n; g_mode0 = mode; g_ops0 = all_opcodes; g_col0 = use_colors ? 1 : 0; g_cs0 = cs ? 1 : 0; g_sto0 = sto ? 1 : 0; g_inc0 = include_dirs; g_in0 = curr_input_file; g_out0 = output_filename; g_started = 1; g_appended = g_added = g_set = g_inits = g_comm = g_toks = 0; g_eq = nondet_vc_char() & 1; g_noname = nondet_vc_char() & 1; g_blank = nondet_vc_char() & 1; g_toks = nondet_vc_char() & 63; g_n = g_toks; g_def.contents = 0; g_freed = 0;
}
char *vc_dup(const char *s) {
	if (s[0] == 'C' && s[1] == 'o' && !g_started) return g_start; if (s == g_tokbuf) { CHECK(g_appended >= 0, "a directory"); return g_dup; } if (opt() == 'V') { CHECK(s[0] == '-' && s[1] == 'v' && s != g_arg && s != g_next, "its name"); return g_in1; }
	if (s == g_arg) { CHECK(g_arg[0] != '-', "a file name"); return g_in0 == g_start ? g_file : g_outn; }
	if (opt() == 'I') { CHECK(s == g_param, "the directories given"); return g_path; }
	if (opt() == 'D') { if (g_eq && s == g_param + 1) return g_val; CHECK(s != g_arg && s != g_next, "the name read"); return g_name1; }
	CHECK(0, "no other copies"); return 0;
}
size_t vc_strlen(const char *s) { return s == g_arg ? (g_len2 ? 3 : g_arg[1] ? 2 : g_arg[0] ? 1 : 0) : s == g_next || s == g_param ? 3 : 0; }
char *vc_tok(char *s, const char *d) { CHECK((s == g_path) == (g_toks == g_n && s != 0) && d[0] && d[1] && !d[2] && ((d[0] == ';' && d[1] == ',') || (d[0] == ',' && d[1] == ';')), "split at , and ;"); if (g_toks == 0) { g_toks = -1; return 0; } g_toks--; return g_tokbuf; }
list_t *list_append(list_t *l, void *p) { CHECK(p == g_dup && opt() == 'I' && l == include_dirs, "a directory, behind the others"); g_appended++; return &D; }
bool read_expr_impl(const char **const p, char *w, const char *d) { CHECK(*p == g_param && opt() == 'D' && d[0] == '=' && d[1] == 0, "the name"); w[0] = g_noname ? 0 : 'n'; w[1] = 0; if (g_eq) { g_param[0] = '='; } else { g_param[0] = 0; } return true; }
char *skip_whitespace(const char *s) { CHECK(s == g_param + (g_eq ? 1 : 0), "what is behind the name"); ((char *)s)[0] = g_eq && !g_blank ? 'v' : 0; return (char *)s; }
define_t *add_define(char *n, bool *r, bool l) { CHECK(n == g_name1 && g_sto0 + g_inits == 1, "the definition"); if (g_noname) return 0; g_added = -1; return &g_def; }
void set_define(define_t *d, const char *t, int n, bool r) { CHECK(d == &g_def && t[0] == '1' && t[1] == 0 && n == 1 && !r, "no value: 1"); CHECK(g_added == -1 && (!g_eq || g_blank), "no value"); g_def.contents = g_val; g_set = 1; }
void init_storage(void) { CHECK(g_inits == 0, "once"); g_inits = 1; } void free_storage(void) { CHECK(g_fin == 1, "at the end"); }
void set_case_sensitive(bool b) { g_cs1 = b ? 1 : 0; }
void *vc_malloc(size_t n) { if (opt() == 'V' && g_comm == 0) { CHECK(n >= 5, "the text and its line end fit"); g_comm = 1; return g_line; } CHECK(n == output_buf_size, "the output"); return g_o; }
char *vc_strcpy(char *d, const char *s) { CHECK(d == g_line && s == g_param && g_comm == 1, "the text given"); return d; }
char *vc_strcat(char *d, const char *s) { CHECK(d == g_line && s[0] == '\n' && s[1] == 0 && g_comm == 1, "and a line end"); g_comm = 2; return d; }
char *change_extension(const char *f, const char *e) { CHECK(e[0] == 'b' && e[1] == 'i' && e[2] == 'n' && e[3] == 0 && f == curr_input_file, "named after the input"); return g_out1; }
void vc_free(void *p) {}
void vc_exit(int c) { CHECK(c == EXIT_NORMAL && g_helped, "help"); ASSUME(0); }
void print_help_message(void) { CHECK(!g_started || opt() == 'H' || opt() == 'h', "asked for"); ASSUME(0); }
void ClearSPASMErrorSessions(void) {} void list_free(list_t *l, bool f, void (*cb)(void *)) {}
int run_assembly(void) { CHECK(g_fin == 0 && g_cs1 == (g_started && (OPT == 'A' || g_cs0)), "case as asked for"); CHECK(curr_input_file != g_start && output_filename != 0 && output_contents == g_o, "files"); g_fin = 1; return g_x; }
HARNESS(h_main) {
	int argc = (int)nondet_vc_ll(); ASSUME(argc >= 1 && argc < 1000000); char **argv = (char **)malloc(8L * argc); ASSUME(argv != 0); g_started = g_fin = g_helped = 0; g_x = nondet_vc_char(); include_dirs = 0; curr_input_file = output_filename = input_contents = 0; g_inits = 0; g_cs1 = 0; g_appended = 0; g_arg0 = 0; g_arg[0] = 0; g_comm = 0; mode = 0; g_next[0] = 'x'; g_next[3] = 0; g_arg[3] = 0; all_opcodes = 0;
	int r = main(argc, argv); int o = opt();
	if (g_fin) CHECK(r == g_x, "the exit status of the assembly"); else { CHECK(r != 0, "no assembly is a failure"); CHECK(curr_input_file == g_start || (g_started && g_arg[0] == '-' && !(o == 'O' || o == 'T' || o == 'C' || o == 'L' || o == 'S' || o == 'E' || o == 'N' || o == 'A' || o == 'I' || o == 'D' || (o == 'V' && g_param))), "only without a file or with a wrong option"); } REACH();
}
#endif
#endif
