/* C19 diagnostics: sessions of errors and warnings (errors.cpp), printing and the exit status. */
#ifdef NATIVE
#include <string>
#include <vector>
#endif
#define VC_REAL_ERRORS
#define _ERRORS_CPP
#include "base.h"
#ifdef NATIVE
#include <stdarg.h>
static std::vector<std::string> g_out; static int vc_printf(const char *f, ...) { char b[4096]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); if (b[0] != 27) g_out.push_back(b); return 0; }
#define printf vc_printf
#define exit(x) throw (int)(x)
#include "list.cpp"
WORD save_console_attributes() { return 0; } BOOL set_console_attributes(unsigned short) { return 1; } void restore_console_attributes(WORD) {}
#include "errors.cpp"
#undef printf
#undef exit
struct M { DWORD code; bool warn; int session, line; std::string file, note; };
extern "C" void h_any(void) {
	static const DWORD C[] = {SPASM_ERR_LOCAL_LABEL_FORWARD_REF, SPASM_ERR_LABEL_NOT_FOUND, SPASM_ERR_RECURSION_DEPTH, SPASM_ERR_SYNTAX, SPASM_ERR_UNMATCHED_IF, SPASM_ERR_SUCCESS, SPASM_ERR_DIVIDE_BY_ZERO, SPASM_ERR_VALUE_EXPECTED, 0x9999};
	std::vector<M> m; int cur = 0, n = (int)vc_in("n", 1, 40); char q[16], fn[8] = "f0"; curr_input_file = fn; mode = vc_in("cc", 0, 9) ? MODE_NORMAL : MODE_CODE_COUNTER; exit_code = EXIT_NORMAL; use_colors = vc_in("col", 0, 1); ClearSPASMErrorSessions(); int want = EXIT_NORMAL;
	auto fatal = [](const M &e) { return !e.warn && e.code != SPASM_ERR_LOCAL_LABEL_FORWARD_REF && e.code != SPASM_ERR_LABEL_NOT_FOUND && e.code != SPASM_ERR_RECURSION_DEPTH; };
	for (int i = 0; i < n; i++) {
		sprintf(q, "op%d", i); int op = (int)vc_in(q, 0, 15); fn[1] = '0' + i % 10; line_num = i ? i : -1; g_out.clear();
		sprintf(q, "c%d", i); DWORD code = C[vc_in(q, 0, 8)];
		if (op < 4) { CHECK(StartSPASMErrorSession() == ++cur, "sessions are counted"); }
		else if (op < 9) { bool w = op == 8; if (w) SetLastSPASMWarning(code, "a", "b"); else SetLastSPASMError(code, "a", "b"); if (code) m.push_back({code, w, cur, line_num, fn, ""}); }
		else if (op == 9) { int c = 0; for (auto &e : m) c += e.session == cur; CHECK(GetSPASMErrorSessionErrorCount(cur) == c, "count"); bool in = false; for (auto &e : m) in |= e.session == cur && e.code == code; CHECK(IsErrorInSPASMErrorSession(cur, code) == in, "is it in the session"); }
		else if (op == 10) { bool f = false; for (auto &e : m) f |= e.session == cur && fatal(e); CHECK(IsSPASMErrorSessionFatal(cur) == f, "fatal"); }
		else if (op == 11 && cur > 0) { AddSPASMErrorSessionAnnotation(cur, "note %d", i); char b[99]; sprintf(b, "%s:%d: note %d", fn, line_num, i); for (auto &e : m) if (e.session >= cur) e.note = b; }
		else if (op < 16 && cur > 0) {
			sprintf(q, "r%d", i); bool rep = vc_in(q, 0, 1), fo = op == 15;
			if (rep) { if (fo) ReplayFatalSPASMErrorSession(cur); else ReplaySPASMErrorSession(cur); if (cur > 1) { CHECK(g_out.empty(), "kept for the session outside"); for (auto &e : m) if (e.session == cur) e.session--; } else { size_t k = 0; if (!(mode & MODE_CODE_COUNTER)) for (auto &e : m) if (e.session == 1 && (!fo || e.warn || fatal(e))) { int s = e.warn ? EXIT_WARNINGS : EXIT_ERRORS; if (want < s) want = s;
					if (!e.note.empty()) { CHECK(k < g_out.size() && g_out[k] == e.note + "\n", "the annotation"); k++; } char pre[99]; if (e.line != -1) sprintf(pre, "%s:%d: %s %s%03X: ", e.file.c_str(), e.line, e.warn ? "warning" : "error", e.warn ? "SW" : "SE", e.code); else sprintf(pre, "%s: %s %s%03X: ", e.file.c_str(), e.warn ? "warning" : "error", e.warn ? "SW" : "SE", e.code); CHECK(k < g_out.size() && g_out[k].compare(0, strlen(pre), pre) == 0, "every diagnostic once, oldest first"); k++; } CHECK(k == g_out.size(), "and no other"); } }
			bool f = false; for (auto &e : m) f |= e.session == cur && fatal(e); int ex = -1; try { EndSPASMErrorSession(cur); } catch (int x) { ex = x; } CHECK(ex == (cur == 1 && f ? EXIT_FATAL_ERROR : -1), "a fatal error left in the last session ends the program"); std::vector<M> o; for (auto &e : m) if (e.session != cur) o.push_back(e); m = o; cur--;
		}
		int c = 0; for (list_t *p = (list_t *)g_ErrorList; p; p = p->next) c++; CHECK(c == (int)m.size() && g_nErrorSession == cur && (int)exit_code == want, "what is kept, and the exit status");
	}
	ClearSPASMErrorSessions(); CHECK(g_ErrorList == 0 && g_nErrorSession == 0, "cleared");
}
#define H(n) extern "C" void n(void) { h_any(); }
H(h_count) H(h_fatal) H(h_isin) H(h_replay) H(h_print1) H(h_clean) H(h_set) H(h_print) H(h_note) H(h_end)
#else
/* The list of diagnostics: X is the node the walk has reached, E what it holds.  A loop starts each round with an arbitrary
 * X and E (they are in its frame), NEXT unfolds "the list goes on for g_left nodes". */
#undef assert
#define assert(x) CHECK(x, "the code's own assertion")
extern long g_left, g_cnt, g_run; extern int g_n, g_code, g_any, g_expect, g_min, g_freed, g_nodes;
int vc_printf(const char *f, ...); void vc_free(void *p);
#ifdef VC_SET
void vc_vsn(char *b, size_t n, const char *f); void vc_sn5(char *b, size_t n, const char *f, const char *a, int l, const char *t, const char *c, DWORD k, const char *d); void vc_sn4(char *b, size_t n, const char *f, const char *a, const char *t, const char *c, DWORD k, const char *d);
#undef StringCchVPrintf
#define StringCchVPrintf(b, n, f, v) vc_vsn(b, n, f)
#undef StringCchPrintf
#define VC_PICK(b, n, f, a1, a2, a3, a4, a5, a6, m, ...) m
#define StringCchPrintf(...) VC_PICK(__VA_ARGS__, vc_sn5, vc_sn4, vc_sn3, vc_sn3, 0)(__VA_ARGS__)
#define vc_sn3(...) (void)0
#endif
#ifdef VC_NOTE
void vc_vsn(char *b, size_t n, const char *f); void vc_sn3(char *b, size_t n, const char *f, const char *a, int l, const char *d);
#undef StringCchVPrintf
#define StringCchVPrintf(b, n, f, v) vc_vsn(b, n, f)
#undef StringCchPrintf
#define StringCchPrintf(...) vc_sn3(__VA_ARGS__)
#endif
#define printf vc_printf
#define exit vc_exit
#define free vc_free
void vc_exit(int c);
#undef _strdup
#undef _tcsdup
#undef strdup
#define _strdup vc_dup
#define _tcsdup vc_dup
#define strdup vc_dup
char *vc_dup(const char *s);
#ifdef VC_PRINT1
struct tagERRORINSTANCE;
void vc_print(struct tagERRORINSTANCE *e);
#define PrintSPASMError vc_print
#endif
#define VC_ERR ((LPERRORINSTANCE)pList->data)
#define FATAL(e) (!(e)->fIsWarning && (e)->dwErrorCode != 0x100 && (e)->dwErrorCode != 0x106 && (e)->dwErrorCode != 0 && (e)->dwErrorCode != 0x129)
#define ISX (pList == (g_left ? (list_t *)&X : (list_t *)0) && g_left >= 0 && X.data == &E)
#define NEXT CHECK(pList == (list_t *)&X && g_left > 0, "a node of the list"); ASSUME(X.next == (g_left > 1 ? (list_t *)&X : (list_t *)0)); g_left--;
extern list_t X; extern struct tagERRORINSTANCE E;
extern char g_note[4]; struct tagERRORINSTANCE g_fresh(void);
#include "errors.cpp"
ERRORINSTANCE g_fresh(void) { ERRORINSTANCE e; ASSUME(e.lpszAnnotation != (char *)g_note); return e; }
list_t X; ERRORINSTANCE E; long g_left, g_cnt, g_run; int g_n, g_code, g_any, g_expect, g_min, g_freed, g_nodes, g_printed, g_rec, g_exit; char g_txt[4], g_note[4], g_file[4]; const list_t *g_next;
WORD save_console_attributes(void) { return 0; } BOOL set_console_attributes(unsigned short a) { return 1; } void restore_console_attributes(WORD a) {}
static void setup(void) { g_left = nondet_vc_ll(); ASSUME(g_left >= 0 && g_left < 100000000); g_n = (int)nondet_vc_ll(); ASSUME(g_n >= 1 && g_n <= 1000000); g_code = (int)nondet_vc_ll(); g_cnt = g_any = 0; ERRORINSTANCE e0; E = e0; X.data = &E; X.next = g_left > 1 ? &X : 0; ASSUME(E.lpszFileName != (char *)&E && E.lpszErrorText != (char *)&E && E.lpszAnnotation != (char *)&E); g_ErrorList = (errorlist_t *)(g_left ? &X : 0); E.fIsWarning = nondet_vc_char() & 1; g_exit = 0; g_nErrorSession = g_n; mode = MODE_NORMAL; }
void vc_exit(int c) { CHECK(g_exit == 1 && c == EXIT_FATAL_ERROR, "only a fatal error in the outermost session ends the program"); g_exit = 2; ASSUME(0); }
#ifdef VC_COUNT
HARNESS(h_count) { setup(); int r = GetSPASMErrorSessionErrorCount(g_n); CHECK(r == g_cnt && (g_left == 0 || E.nSession != g_n), "the number of errors and warnings on top that belong to the session"); REACH(); }
HARNESS(h_fatal) { setup(); bool r = IsSPASMErrorSessionFatal(g_n); CHECK(r == g_any && (r || g_left == 0 || E.nSession != g_n), "a fatal error is among the session's"); REACH(); }
HARNESS(h_isin) { setup(); bool r = IsErrorInSPASMErrorSession(g_n, (DWORD)g_code); CHECK(r == g_any && (r || g_left == 0 || E.nSession != g_n), "the error is among the session's"); DWORD c = (DWORD)nondet_vc_ll(); ERRORINSTANCE x; x.fIsWarning = 0; x.dwErrorCode = c; CHECK(IsSPASMErrorFatal(c) == FATAL(&x), "which errors are not final"); REACH(); }
void ReplayErrorRecursive(const list_t *p, bool f) { CHECK(0, "inner sessions are not printed"); }
HARNESS(h_replay) { setup(); ASSUME(g_n != 1); g_expect = E.nSession; bool f = nondet_vc_char() & 1; ReplaySPASMErrorSession(g_n, f); CHECK(g_left == 0 || (E.nSession == g_expect && g_expect != g_n) || E.nSession == g_expect, "handed to the session outside"); CHECK(g_nErrorSession == g_n, "sessions"); REACH(); }
#endif
#ifdef VC_PRINT1
/* replaying the outermost session prints: the tail of the list (older diagnostics) first, then this one */
void vc_rec_ReplayErrorRecursive(const list_t *p, bool f) { CHECK(g_rec == 0 && g_printed == 0 && p == g_next && f == g_any, "the older ones first"); g_rec = 1; }
void vc_print(struct tagERRORINSTANCE *e) { CHECK(e == &E && g_rec == 1 && g_printed == 0, "then this one, once"); g_printed = 1; }
HARNESS(h_print1) {
	setup(); g_rec = g_printed = 0; bool fo = nondet_vc_char() & 1; g_any = fo; list_t Y; X.next = nondet_vc_char() & 1 ? &Y : 0; g_next = X.next; bool empty = nondet_vc_char() & 1; ERRORINSTANCE o = E;
	ReplayErrorRecursive(empty ? 0 : &X, fo);
	if (empty) CHECK(g_rec == 0 && g_printed == 0, "nothing"); else CHECK(g_rec == 1 && g_printed == (o.nSession == 1 && (!fo || o.fIsWarning || FATAL(&o))), "each diagnostic of the session once");
	CHECK(E.nSession == o.nSession && E.dwErrorCode == o.dwErrorCode, "unchanged"); REACH();
}
#endif
#ifdef VC_CLEAN
void list_free_node(list_t *p) { CHECK(p == (list_t *)&X && g_nodes == 0 && g_freed == 1, "the node is released after its diagnostic"); g_nodes = 1; }
void vc_free(void *p) { if (p == &E) { CHECK(g_freed == 0, "once"); g_freed = 1; } }
HARNESS(h_clean) {
	setup(); g_freed = g_nodes = 0; g_cnt = g_run = 0; int old = g_nErrorSession; errorlist_t *l = g_ErrorList; long n = g_left; ASSUME(E.nSession == g_n || 1);
	int r = CleanupSPASMErrorSession(g_n);
	CHECK(r == g_cnt && g_nErrorSession == old - 1, "the number of fatal errors; the session is closed"); CHECK(g_ErrorList == (errorlist_t *)(g_left ? &X : 0) && (g_left == 0 || E.nSession != g_n), "the session's diagnostics are gone, the others stay"); CHECK(g_freed == g_nodes && g_freed == (n != g_left), "only they are released"); REACH();
}
#endif
#ifdef VC_END
int CleanupSPASMErrorSession(int n) { CHECK(n == g_n && g_rec == 0, "the session is closed"); g_rec = 1; return (int)g_cnt; }
HARNESS(h_end) { setup(); g_cnt = nondet_vc_ll(); ASSUME(g_cnt >= 0 && g_cnt < 1000000); g_rec = 0; g_exit = g_n == 1 && g_cnt > 0; EndSPASMErrorSession(g_n); CHECK(g_rec == 1 && g_exit == 0, "a fatal error in the outermost session ends the program"); REACH(); }
HARNESS(h_print) {
	setup(); char ann = nondet_vc_char(); E.lpszErrorText = g_txt; E.lpszAnnotation = ann & 1 ? (char *)g_note : 0; mode = nondet_vc_char(); use_colors = nondet_vc_char() & 1; exit_code = (EXIT_STATUS)(nondet_vc_char() & 7); int x = exit_code, s = E.fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS; g_printed = 0; g_any = (ann & 1);
	PrintSPASMError(&E);
	int live = !(mode & MODE_CODE_COUNTER); CHECK(g_printed == (live ? g_any + 1 : 0) && (int)exit_code == (live && x < s ? s : x), "printed once, the exit status says so"); REACH();
}
#endif
#ifdef VC_NOTE
void vc_vsn(char *b, size_t n, const char *f) { CHECK(f == g_txt && n <= 128 && n > 1, "the text given"); b[n - 1] = 0; }
void vc_sn3(char *b, size_t n, const char *f, const char *a, int l, const char *d) { CHECK(n <= 256 && a == g_file && l == line_num && n > 1, "with file and line"); b[n - 1] = 0; }
char *vc_dup(const char *s) { CHECK(g_nodes == 0, "one copy each"); g_nodes = 1; return g_note; }
void vc_free(void *p) { CHECK(p == E.lpszAnnotation && p, "the old annotation"); g_freed++; }
HARNESS(h_note) { setup(); curr_input_file = g_file; g_freed = g_nodes = 0; char *a = E.lpszAnnotation; int had = g_left > 0; AddSPASMErrorSessionAnnotation(g_n, g_txt); CHECK(g_left == 0, "all of the session and inside are annotated"); REACH(); }
#endif
#ifdef VC_SET
void vc_vsn(char *b, size_t n, const char *f) { int k = 0, hit = 0; CHECK(n == 128, "size"); for (k = 0; k < (int)(sizeof g_ErrorCodes / sizeof *g_ErrorCodes); k++) if (g_ErrorCodes[k].dwCode == (DWORD)g_code && !hit) { hit = 1; CHECK(f == g_ErrorCodes[k].lpszDescription, "the code's description"); } CHECK(hit && g_any == 0, "a known code"); g_any = 1; b[n - 1] = 0; }
static void text(char *b, size_t n, const char *a, const char *t, const char *c, DWORD k) { CHECK(n == 256 && a == g_file && c[0] == 'S' && c[1] == (g_expect ? 'W' : 'E') && t[0] == (g_expect ? 'w' : 'e') && k == (DWORD)g_code, "file, kind and code"); b[n - 1] = 0; g_printed++; }
void vc_sn5(char *b, size_t n, const char *f, const char *a, int l, const char *t, const char *c, DWORD k, const char *d) { CHECK(l == line_num && l != -1, "line"); text(b, n, a, t, c, k); }
void vc_sn4(char *b, size_t n, const char *f, const char *a, const char *t, const char *c, DWORD k, const char *d) { CHECK(line_num == -1, "line"); text(b, n, a, t, c, k); }
char *vc_dup(const char *s) { if (s == g_file) return g_file; CHECK(g_printed == 1, "the text"); return g_txt; }
list_t *list_prepend(list_t *l, void *d) { CHECK(l == (list_t *)(g_left ? &X : 0) && g_nodes == 0, "in front of the others"); LPERRORINSTANCE e = (LPERRORINSTANCE)d; CHECK(e->dwErrorCode == (DWORD)g_code && e->line_num == line_num && e->lpszFileName == g_file && e->nSession == g_nErrorSession && e->fIsWarning == g_expect && e->lpszErrorText == g_txt && e->lpszAnnotation == 0, "what is recorded"); g_nodes = 1; return &X; }
HARNESS(h_set) { setup(); curr_input_file = g_file; line_num = (int)nondet_vc_ll(); g_expect = nondet_vc_char() & 1; g_nodes = g_printed = 0; int s = g_nErrorSession; if (g_expect) SetLastSPASMWarning((DWORD)g_code, 1); else SetLastSPASMError((DWORD)g_code, 1); CHECK(g_nodes == (g_code != 0) && g_nErrorSession == s, "recorded once"); REACH(); }
#endif
#if !defined(VC_CLEAN) && !defined(VC_NOTE)
void vc_free(void *p) { CHECK(0, "nothing is released"); }
#endif
#if !defined(VC_SET) && !defined(VC_NOTE)
char *vc_dup(const char *s) { return 0; }
#endif
#undef printf
int vc_printf(const char *f, ...) { if (f[0] == '%' && f[1] == 's') { va_list v; va_start(v, f); const char *s = va_arg(v, char *); va_end(v); CHECK(s == (g_any && g_printed == 0 ? (char *)g_note : (char *)g_txt), "the annotation, then the text"); g_printed++; } return 0; }
#endif
