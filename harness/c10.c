/* C10 reusable labels: storage.cpp's table and parser.cpp's references. */
#include "base.h"
#include "str.h"
#include <limits.h>
#ifdef NATIVE
#include "hash.h"
#endif
#ifndef VC_REF
/* ---- the table ---- */
#ifdef NATIVE
#include "storage.cpp"
#else
extern unsigned reusables[];
extern int curr_reusable, total_reusables;
#include "storage.cpp"
#endif
DECL_IN(cur) DECL_IN(tot) DECL_IN(idx) DECL_IN(pc) DECL_IN(k) DECL_IN(old)
HARNESS(h_add) {
	curr_reusable = (int)IN(cur, 0, MAX_REUSABLES); total_reusables = (int)IN(tot, 0, MAX_REUSABLES); program_counter = (unsigned)IN(pc, 0, 4294967295LL);
	int cur = curr_reusable, k = (int)IN(k, 0, MAX_REUSABLES - 1);
	total_reusables = cur; /* labels are only added in the first pass, where the position is the end of the table */
	gh_reset();
	reusables[k] = (unsigned)IN(old, 0, 4294967295LL); unsigned old = reusables[k];
	add_reusable();
	CHECK(IMP(k != cur, reusables[k] == old), "earlier labels keep their address");
	CHECK(cur < MAX_REUSABLES ? curr_reusable == cur + 1 && total_reusables == cur + 1 && reusables[cur] == program_counter && gh_showerr == 0 : gh_showerr == 1 && curr_reusable == cur, "the new label is the current address; a full table is an error");
	CHECK(get_curr_reusable() == curr_reusable - 1 && get_num_reusables() == curr_reusable, "position and count");
	REACH();
}
HARNESS(h_search) {
	curr_reusable = (int)IN(cur, 0, MAX_REUSABLES); total_reusables = (int)IN(tot, 0, MAX_REUSABLES);
	int cur = curr_reusable, tot = total_reusables, i = (int)IN(idx, -2147483648LL, 2147483647LL), k = (int)IN(k, 0, MAX_REUSABLES - 1);
	reusables[k] = (unsigned)IN(old, 0, 4294967295LL); unsigned old = reusables[k];
	gh_reset();
	unsigned v = search_reusables(i);
	CHECK(i >= 0 && i < tot ? gh_showerr == 0 : gh_showerr == 1 && v == 0, "a reusable label that does not exist is an error");
	CHECK(IMP(i == k && k < tot, v == old), "its address");
	CHECK(curr_reusable == cur && total_reusables == tot && reusables[k] == old, "looking up changes nothing");
	int s = get_curr_reusable();
	set_curr_reusable((int)IN(idx, -1, MAX_REUSABLES - 1)); set_curr_reusable(s);
	CHECK(curr_reusable == cur && total_reusables == tot, "a saved position is restored exactly");
	REACH();
}
#else
/* ---- references ---- */
long g_sig, g_at; int g_cur, g_tot, g_looked, g_idx; unsigned g_addr;
int vc_cur(void) { return g_cur; }
int vc_num(void) { return g_tot; }
unsigned vc_sr(int i) { g_looked++; g_idx = i; CHECK(i >= 0 && i < g_tot, "only labels that exist are looked up"); return g_addr; }
#define get_curr_reusable vc_cur
#define get_num_reusables vc_num
#define search_reusables vc_sr
#ifndef NATIVE
define_t *search_local_defines(const char *n) { return 0; }
define_t *search_defines(const char *n, bool l) { return 0; }
label_t *search_labels(const char *n) { return 0; }
char *skip_to_name_end(const char *p) { CHECK(p == g_s && CH(0) == '_', "the name"); return g_s + 1; }
char g_one[2];
char *vc_strndup(const char *s, size_t n) { CHECK(s == g_s && n == 1, "the name"); g_one[0] = '_'; g_one[1] = 0; return g_one; }
int vc_strcmp(const char *a, const char *b) { return a == g_one && b[0] == '_' && b[1] == 0 ? 0 : 1; }
int vc_strcasecmp(const char *a, const char *b) { return 1; }
void vc_free(void *p) {}
#define strndup vc_strndup
#define strcmp vc_strcmp
#define strcasecmp vc_strcasecmp
#define free vc_free
#else
define_t *search_local_defines(const char *n) { return 0; }
define_t *search_defines(const char *n, bool l) { return 0; }
label_t *search_labels(const char *n) { return 0; }
char *skip_to_name_end(const char *p) { while (sp_name(*p)) p++; return (char *)p; }
#endif
#include "parser.cpp"
#ifndef NATIVE
static const char *parse_num_full(const char *expr, int *value, int depth) { return 0; } /* not reached by these references */
char *parse_define(define_t *d) { return 0; }
bool parse_num(const char *e, int *v) { return 0; }
int parse_f(const char *e) { return 0; }
bool conv_hex(const char *str, const char *end, int *out) { return 0; }
static bool conv_dec(const char *str, const char *end, int *out) { return 0; }
static bool conv_bin(const char *str, const char *end, int *out) { return 0; }
#endif
DECL_IN(cur) DECL_IN(tot) DECL_IN(addr)
HARNESS(h_ref) {
	int value = 77; g_o = 0;
	VC_CHARSET("+++----____a1 ");
	g_s = IN_STR(0, g_n, 1, 1000000);
	g_cur = (int)IN(cur, -1, MAX_REUSABLES - 1); g_tot = (int)IN(tot, 0, MAX_REUSABLES); g_addr = (unsigned)IN(addr, 0, 4294967295LL); g_looked = 0;
	NATIVE_ONLY(g_cur = g_cur > 8 ? g_cur % 9 : g_cur; g_tot = g_tot > 12 ? g_tot % 13 : g_tot;)
	ASSUME(g_tot > g_cur);
	char c0 = CH(0);
	ASSUME(c0 == '+' || c0 == '-' || (c0 == '_' && !sp_name(CH(1))));
	/* g_sig: the number of signs, the run of c0 from the start */
#ifndef NATIVE
	g_sig = nondet_vc_ll(); g_at = c0 == '-' ? 1 : 0;
	ASSUME(g_sig >= 0 && g_sig <= g_n && (c0 == '_' ? g_sig == 0 : g_sig >= 1 && CH(g_sig) != c0));
#else
	g_sig = 0; if (c0 != '_') while (CH(g_sig) == c0) g_sig++;
#endif
	gh_reset();
	const char *r = parse_single_num(g_s, &value);
	/* an instance of g_sig's definition (every character before g_sig is a sign) at the position the scan ended */
	CBMC_ONLY(ASSUME(IMP(c0 != '_' && g_at < g_sig, CH(g_at) == c0));)
	long want = c0 == '-' ? (long)g_cur - (g_sig - 1) : (long)g_cur + (g_sig == 0 ? 1 : g_sig);
	if (CH(g_sig) == '_' && want >= 0 && want < g_tot) {
		CHECK(r == g_s + g_sig + 1, "a reference ends with its underscore");
		CHECK(g_looked == 1 && g_idx == want && value == (int)g_addr && gh_err == 0 && gh_showerr == 0, "the n-th label before or after this point");
	} else {
		CHECK(r == 0 && gh_err == 1 && gh_showerr == 0 && g_looked == 0, "an error, and no value");
		CHECK(IMP(CH(g_sig) == '_' && c0 != '-', gh_errcode == SPASM_ERR_LOCAL_LABEL_FORWARD_REF), "a label further on may be defined later");
		CHECK(IMP(c0 == '-' || CH(g_sig) != '_', gh_errcode == SPASM_ERR_LOCAL_LABEL_SYNTAX), "anything else is a syntax error");
	}
	REACH();
}
#endif
