/* C05 mnemonics: eZ80 size suffixes, finding the opcode, advancing the address. */
#include "base.h"
#include "str.h"
#define NMAX 1000000
DECL_IN(adl) DECL_IN(ez) DECL_IN(suf) DECL_IN(pc) DECL_IN(w) DECL_IN(sz) DECL_IN(c) DECL_IN(k) DECL_IN(len)
extern bool adl_mode;
/* what a suffix means: the long bit of the data width, the long bit of the instruction width; -1: none. *at: where the mnemonic ends */
static int sp_suffix(const char *s, long len, int adl, long *at) {
#define T(k) (len >= k ? sp_lower(s[len - k]) : 0)
	*at = len;
	int d = adl ? 3 : 0, a = T(1) == 's' ? 0 : T(1) == 'l' ? 1 : -1;
	if (a < 0) return -1;
	if (T(2) == '.') { *at = len - 2; return (d & 2) | a; }                          /* .s .l */
	if (T(2) == 'i' && T(3) == '.') { *at = len - 3; return (d & 1) | a * 2; }      /* .is .il */
	if (T(2) == 'i' && (T(3) == 's' || T(3) == 'l') && T(4) == '.') { *at = len - 4; return (T(3) == 'l') | a * 2; } /* .sis .lis .sil .lil */
	return -1;
}
#ifdef VC_LOOKUP
/* the opcode table has g_no entries; X stands for the current one (chosen anew in every iteration, the loop keeps none of them), g_i counts
 * them; its name has g_len characters, g_pre leading ones of which (including the terminator) agree with the text, up to case */
opcode X; char g_nm[2]; long g_len, g_pre, g_no, g_i, g_ne, g_L; int g_suf, g_sz, g_rowok, g_matched, g_written, g_dispatched, g_missed; instr g_row;
#define MATCH (g_len == g_L && g_pre >= g_L)
static void next_x(void) {
	if (g_i && MATCH) g_missed = 1;
	g_i++; X.next = g_i < g_no ? &X : (opcode *)0;
#ifndef NATIVE
	g_len = nondet_vc_ll(); g_pre = nondet_vc_ll();
	/* names have no dot, so they do not go on like the text behind the mnemonic */
	ASSUME(g_len >= 0 && g_len < 100 && g_pre >= 0 && g_pre <= g_len + 1 && (g_pre <= g_len || g_L <= g_len) && (g_len <= g_L || g_pre <= g_L));
#endif
}
#ifndef NATIVE
size_t vc_strlen(const char *s) {
	if (s == g_s) return g_n;
	CHECK(s == g_nm, "the opcode's name"); return g_len;
}
int vc_casecmp(const char *a, const char *b, size_t n) {
	if (!((a == g_s && b == g_nm) || (b == g_s && a == g_nm))) return 1; /* built-in function names */
	return n <= (size_t)g_pre || g_pre > g_len ? 0 : nondet_vc_char() ? 1 : -1;
}
char *vc_nameend(const char *p) { CHECK(p == g_s, "the name"); return g_s + g_ne; } /* contract of skip_to_name_end (C14) */
char *vc_ws(const char *p) { CHECK(p == g_s + g_ne, "the operands follow the name"); return g_s + g_o; } /* contract of skip_whitespace (C14) */
int parse_suffix(const char *name_start, char **opcode_end) { /* contract: verified below */
	CHECK(name_start == g_s && *opcode_end == g_s + g_ne && (mode & MODE_EZ80), "suffixes exist in eZ80 mode");
	*opcode_end = g_s + g_L; return g_suf;
}
/* the callees: their contracts are C06 and C02 */
char *vc_end; char **g_ap, **g_ae;
char *match_opcode_args(char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr) {
	CHECK(ptr == g_s + g_o && curr_opcode == &X && MATCH, "the operands are matched against an opcode of that name");
	CHECK(!g_missed, "it is the first such opcode");
	CHECK(*curr_instr == 0, "no row is selected yet"); g_matched++; g_ap = arg_ptrs; g_ae = arg_end_ptrs;
	if (g_rowok) *curr_instr = &g_row;
	return vc_end;
}
int write_instruction_data(instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix) {
	CHECK(g_matched == 1 && curr_instr == &g_row && arg_ptrs == g_ap && arg_end_ptrs == g_ae && suffix == g_suf, "the matched row is written with its operands and suffix"); g_written++;
	return g_sz;
}
define_t *search_defines(const char *n, bool s) { g_dispatched++; return 0; } /* not a macro either */
char *vc_strndup(const char *s, size_t n) { return 0; }
#define strndup vc_strndup
#define strlen vc_strlen
#define strncasecmp vc_casecmp
#define skip_to_name_end vc_nameend
#define skip_whitespace vc_ws
#else
#define search_defines(...) ((define_t *)0)
#endif
opcode *all_opcodes;
#endif
#include "pass_one.cpp"
HARNESS(h_suffix) {
	VC_CHARSET("...sSlLiIa");
	g_s = IN_STR(0, g_n, 0, NMAX); adl_mode = IN(adl, 0, 1) != 0;
	CBMC_ONLY(long len = nondet_vc_ll(); ASSUME(len >= 0 && len <= g_n);)
	NATIVE_ONLY(long len = g_n;)
	char *end = g_s + len; long at;
	int want = sp_suffix(g_s, len, adl_mode != 0, &at);
	int r = parse_suffix(g_s, &end);
	CHECK(r == want, "the suffix's widths; one-letter parts follow the current mode");
	CHECK(end == g_s + at, "the mnemonic ends in front of the suffix");
	REACH();
}
#ifdef VC_LOOKUP
#ifndef NATIVE
HARNESS(h_lookup) {
	g_s = IN_STR(0, g_n, 0, NMAX);
	g_ne = nondet_vc_ll(); g_o = nondet_vc_ll(); g_L = nondet_vc_ll(); ASSUME(g_ne >= 0 && g_L >= 0 && g_L <= g_ne && g_ne <= g_o && g_o <= g_n && g_ne < 100 && g_s[g_ne] != '(');
	g_no = nondet_vc_ll(); ASSUME(g_no >= 0 && g_no <= NMAX);
	g_i = g_len = g_pre = g_missed = 0; X.name = g_nm; X.next = 0;
	mode = (unsigned)IN(ez, 0, 127); g_suf = -1; if (mode & MODE_EZ80) g_suf = (int)IN(suf, -1, 3); else ASSUME(g_L == g_ne);
	if (g_suf < 0) ASSUME(g_L == g_ne);
	g_sz = (int)IN(sz, 0, 20); g_rowok = nondet_vc_char() & 1; vc_end = g_s + g_n;
	adl_mode = IN(adl, 0, 1) != 0; program_counter = (unsigned)IN(pc, 0, 4294967295LL); stats_codesize = (int)IN(c, 0, 1000000); stats_mintime = stats_maxtime = 0;
	g_row.min_exectime = (int)IN(w, 0, 100); g_row.max_exectime = g_row.min_exectime + 5; g_row.adl_exectime_penalty = 2;
	all_opcodes = g_no ? &X : (opcode *)0; g_matched = g_written = g_dispatched = 0; gh_reset();
	unsigned pc = program_counter; int cs = stats_codesize;
	char *r = handle_opcode_or_macro(g_s);
	if (g_matched) {
		CHECK(g_matched == 1 && g_dispatched == 0 && r == vc_end, "assembly goes on behind the operands");
		CHECK(g_written == g_rowok, "one instruction is written if the operands fit a row, none otherwise");
		CHECK(program_counter == pc + (g_rowok ? (unsigned)g_sz : 0) && stats_codesize == cs + (g_rowok ? g_sz : 0), "the address advances by the instruction's size");
		int pen = (g_suf >= 0) + ((g_suf < 0 ? adl_mode : g_suf > 0) ? 2 : 0);
		CHECK(stats_mintime == (g_rowok ? g_row.min_exectime + pen : 0) && stats_maxtime == (g_rowok ? g_row.max_exectime + pen : 0), "run time statistics");
	} else {
		CHECK(g_i == g_no && !g_missed && !(g_i && MATCH), "an opcode of that name is always found");
		CHECK(g_written == 0 && program_counter == pc && g_dispatched == 1 && gh_err == 1 && gh_errcode == SPASM_ERR_UNKNOWN_OPCODE && r == g_s + g_ne, "a name that is neither opcode nor macro is an error");
	}
	REACH();
}
#else
#include "parser.cpp"
#include "utils_inc.h"
HARNESS(h_lookup) {
	static const char *nm[6] = {"ab", "a", "abx", "ab", "b", "abcd"}; static instr rows[6]; static opcode tab[6]; static char text[64];
	static const char *sf[8] = {".s", ".l", ".IS", ".il", ".sis", ".LiS", ".sil", ".lil"};
	int n = (int)IN(len, 1, 6), w = (int)IN(w, 0, 6), suf = (int)IN(suf, -1, 7), ez = (int)IN(ez, 0, 1), c = (int)IN(c, 0, 15), first = -1, i, L;
	for (i = 0; i < 6; i++) { rows[i].args = ""; rows[i].instr_size = 1; rows[i].size = i + 1; rows[i].instr_data[0] = 0xA0 + i; rows[i].adl_exectime_penalty = 0; rows[i].min_exectime = rows[i].max_exectime = i; tab[i].name = nm[i]; tab[i].instrs = &rows[i]; tab[i].num_instrs = 1; tab[i].next = i + 1 < n ? &tab[i + 1] : 0; }
	strcpy(text, w == 6 ? "zz" : nm[w]); L = strlen(text);
	for (i = 0; i < L; i++) if (c >> (i & 3) & 1) text[i] = toupper(text[i]);
	if (suf >= 0 && ez) strcat(text, sf[suf]);
	strcat(text, "\n");
	for (i = n - 1; i >= 0; i--) if (w < 6 && !strcmp(nm[i], nm[w])) first = i;
	static unsigned char out[64]; out_ptr = output_contents = out; memset(out, 0, sizeof out);
	adl_mode = IN(adl, 0, 1) != 0; mode = MODE_NORMAL | (ez ? MODE_EZ80 : 0); all_opcodes = tab; program_counter = (unsigned)IN(pc, 0, 65535); unsigned pc = program_counter; long at; int want = ez ? sp_suffix(text, strlen(text) - 1, adl_mode != 0, &at) : -1; gh_reset();
	handle_opcode_or_macro(text);
	if (first >= 0) CHECK(program_counter == pc + first + 1 + (want >= 0) && gh_err == 0 && out[want >= 0] == 0xA0 + first && (want < 0 || out[0] == 0x40 + 9 * want), "the first opcode of that name is assembled and the address advances by its size");
	else CHECK(gh_err == 1 && out_ptr == out && program_counter == pc, "a name that is neither opcode nor macro is an error");
}
#endif
#endif
