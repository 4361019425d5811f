/* C06 operand matching: match_opcode_args. */
#include "base.h"
#include "str.h"
#define NMAX 1000000
#define NPAT 15
#define sp_isarg(c) ((c) == '*' || (c) == '&' || (c) == '%' || (c) == '@' || (c) == '^' || (c) == '#')
#ifndef NATIVE
/* Where blanks end (skip_whitespace), and where the expression that starts here ends (read_expr up to a comma): contracts proved in C14, C15 */
long __CPROVER_uninterpreted_ws(long), __CPROVER_uninterpreted_rd(long);
#define WS(p) __CPROVER_uninterpreted_ws(p)
#define RD(p) __CPROVER_uninterpreted_rd(p)
#define WS_OK(p) ASSUME(WS(p) >= (p) && WS(p) <= g_n && !sp_blank(CH(WS(p))) && (WS(p) == (p) ? !sp_blank(CH(p)) : sp_blank(CH(p)) && WS(p) > (p)))
#define RD_OK(p) ASSUME(RD(p) >= (p) && RD(p) <= g_n)
char P[NPAT + 2];
#define NROWS 250
#define R5 P, P, P, P, P,
#define R50 R5 R5 R5 R5 R5 R5 R5 R5 R5 R5
#define R250 R50 R50 R50 R50 R50
const char *const g_rowmem[NROWS * 5] = {R250 R250 R250 R250 R250}; /* (a row is five words, the first of which is its pattern) */
#define g_rows ((instr *)g_rowmem) /* every row's pattern is P, chosen anew when the row is looked at */
opcode g_op, g_nx; long g_no, g_start;
/* the specification, one pattern character at a time: row g_r - 1, its pattern from g_pi, the text from g_t; g_a operands so far */
struct gst { long r, t; int pi, a, fail; } g; char *g_ap[3], *g_ae[3];
char *a_p[3], *a_e[3];
static void sp_row(void) {
	g.r++; g.t = g_start; g.pi = g.a = g.fail = 0;
	P[0] = nondet_vc_char(); P[1] = nondet_vc_char(); P[2] = nondet_vc_char(); P[3] = nondet_vc_char(); P[4] = nondet_vc_char(); P[5] = nondet_vc_char(); P[6] = nondet_vc_char(); P[7] = nondet_vc_char(); P[8] = nondet_vc_char(); P[9] = nondet_vc_char(); P[10] = nondet_vc_char(); P[11] = nondet_vc_char(); P[12] = nondet_vc_char(); P[13] = nondet_vc_char(); P[14] = nondet_vc_char(); P[15] = P[16] = 0;
}
static void sp_step(void) {
	char c = P[g.pi]; g.fail = 0;
	if (sp_isarg(c)) {
		ASSUME(g.a < 3); /* precondition: at most three operands in a row's pattern */
		if (c == '@' && sp_name(CH(g.t))) { g.fail = 1; return; } /* (ixl) is not an index offset */
		RD_OK(g.t);
		long e = RD(g.t);
		if (e > 0 && g_s[e - 1] == ',') e--; /* an operand left out */
		g_ap[g.a] = g_s + g.t; g_ae[g.a] = g_s + e; g.a++; g.t = e;
	} else {
		if (sp_lower(CH(g.t)) != sp_lower(c)) { g.fail = 1; return; }
		g.t++;
	}
	g.pi++; WS_OK(g.t); g.t = WS(g.t);
	ASSUME(IMP(sp_isarg(P[g.pi]), g.a < 3)); /* (the same precondition) */
}
/* an index offset may be left out */
#define OPT (!g.fail && P[g.pi] == '@')
#define VERDICT (!g.fail && (P[g.pi] == 0 || (P[g.pi] == '@' && P[g.pi + 1] == 0)) && sp_eocl(CH(g.t)))
char *vc_ws(const char *p) { CHECK(PTR_OK(p), "inside the text"); long o = OFF(p); WS_OK(o); return g_s + WS(o); }
bool vc_read(const char ** const ptr, char word[256], const char *d) {
	CHECK(PTR_OK(*ptr) && d[0] == ',' && d[1] == 0, "an operand ends at a comma"); long o = OFF(*ptr); RD_OK(o); *ptr = g_s + RD(o); return nondet_vc_char() & 1;
}
bool vc_eocl(const char *p) { CHECK(PTR_OK(p), "inside the text"); return sp_eocl(CH(OFF(p))); }
bool vc_namec(char c) { return sp_name(c); }
bool vc_isarg(char c) { return sp_isarg(c); }
int g_rec; char *vc_recend;
int vc_strcasecmp(const char *a, const char *b) { CHECK((a == g_op.name && b == g_nx.name) || (b == g_op.name && a == g_nx.name), "names are compared"); return g_rec ? 0 : 1; }
/* contract: the remaining groups of the same name (no recursion into the body) */
char *vc_rec_match_opcode_args(char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr) {
	CHECK(ptr == g_s + g_start && arg_ptrs == a_p && arg_end_ptrs == a_e && curr_opcode == &g_nx && g_op.next == &g_nx && g_rec == 1 && *curr_instr == 0, "the next group of the same name is tried");
	g_rec = 2; return vc_recend;
}
#define skip_whitespace vc_ws
#define read_expr_impl vc_read
#define is_end_of_code_line vc_eocl
#define is_name_char vc_namec
#define is_arg vc_isarg
#define strcasecmp vc_strcasecmp
#endif
#include "pass_one.cpp"
#ifndef NATIVE
HARNESS(h_match) {
	g_s = IN_STR(0, g_n, 0, NMAX); ASSUME(g_s[g_n] == 0);
	g_start = nondet_vc_ll(); ASSUME(g_start >= 1 && g_start <= g_n && g_s[g_start - 1] != ','); g_o = 0; /* a name comes before the operands */
	WS_OK(g_start); ASSUME(WS(g_start) == g_start); /* the caller has skipped the blanks */
	CHECK(sizeof(instr) == 40, "size of a row");
	g_no = nondet_vc_ll(); ASSUME(g_no >= 1 && g_no <= NROWS);
	g_op.name = "A"; g_nx.name = "B"; g_op.instrs = g_rows; g_op.num_instrs = (int)g_no; g_op.next = 0; if (nondet_vc_char()) g_op.next = &g_nx; g_op.use_count = 7;
	g_rec = g_op.next ? nondet_vc_char() & 1 : 0; int more = g_rec; vc_recend = g_s + g_n;
	g.r = 0; gh_reset(); instr *in = 0;
	char *r = match_opcode_args(g_s + g_start, a_p, a_e, &g_op, &in);
	if (in) {
		CHECK(g_rec == more && gh_err == 0 && g.r >= 1 && in == &g_rows[g.r - 1] && VERDICT, "a row is selected that the operands fit; it is the first one");
		int k = g.a + (P[g.pi] == '@');
		if (P[g.pi] == '@') { g_ap[g.a] = g_ae[g.a] = g_s + g.t; }
		CHECK(IMP(k > 0, a_p[0] == g_ap[0] && a_e[0] == g_ae[0]) && IMP(k > 1, a_p[1] == g_ap[1] && a_e[1] == g_ae[1]) && IMP(k > 2, a_p[2] == g_ap[2] && a_e[2] == g_ae[2]), "the operands' texts");
		CHECK(r == g_s + g.t && g_op.use_count == 8, "assembly goes on behind the operands");
	} else {
		CHECK(g.r == g_no && !VERDICT, "no row fits");
		if (more) CHECK(g_rec == 2 && r == vc_recend && gh_err == 0, "the next group of the same name decides");
		else CHECK(g_rec == 0 && gh_err == 1 && gh_errcode == SPASM_ERR_INVALID_OPERANDS && PTR_OK(r), "operands that fit no row are an error");
	}
	REACH();
}
#else
#include "parser.cpp"
#include "utils_inc.h"
DECL_IN(n) DECL_IN(split) DECL_IN(a) DECL_IN(b) DECL_IN(c) DECL_IN(d) DECL_IN(e) DECL_IN(w) DECL_IN(gap)
HARNESS(h_match) {
	/* rows and operand texts known to fit exactly the rows of that pattern */
	static const char *pat[10] = {"A,B", "(IX@),&", "A,*", "(*),A", "^,(IY@)", "", "AF,AF'", "A,(IX@)", "(IX@)", "*"};
	static const char *txt[10][3] = {{"a,b", "A , b", " a,B"}, {"(ix),1", "(IX+3) , 5", "( ix-1),'('"}, {"a,5", "A, 5+(2*3)", "a,\"x,\""}, {"(5),a", "(x1),A", "( (2)+1 ) ,a"}, {"3,(iy)", "1+2 , (IY-4)", "7,(iy+1)"},
		{"", " ", "  "}, {"af,af'", "AF , Af'", "aF,aF '"}, {"a,(ix)", "a , (ix+(1))", "A,(ix-2)"}, {"(ix)", "(ix+1)", "(IX - 5)"}, {"5", "1+2", "lab*(2)"}};
	static const char *end[5] = {"\n", "", " ; x", "\\ ld a,b", "\r\n"};
	static instr rows[6]; static opcode op[2]; int ix[6] = {(int)IN(a, 0, 9), (int)IN(b, 0, 9), (int)IN(c, 0, 9), (int)IN(d, 0, 9), (int)IN(e, 0, 9), 0}, n = (int)IN(n, 1, 5), split = (int)IN(split, 0, 5), w = (int)IN(w, 0, 9), v = (int)IN(gap, 0, 2), first = -1, i;
	if (split >= n) split = 0;
	for (i = 0; i < n; i++) { rows[i].args = pat[ix[i]]; int fit = ix[i] == w || (w == 7 && ix[i] == 2) || (w == 0 && ix[i] == 2) || (w == 8 && ix[i] == 9); /* (* also takes names and parentheses) */ if (fit && first < 0) first = i; }
	op[0].name = "LD"; op[0].instrs = rows; op[0].num_instrs = split ? split : n; op[0].next = split ? &op[1] : 0; op[1].name = "ld"; op[1].instrs = rows + split; op[1].num_instrs = n - split; op[1].next = 0;
	static char text[80]; char *ap[3], *ae[3]; instr *in = 0;
	strcpy(text, "ld "); strcat(text, txt[w][v]); strcat(text, end[(w + v + n) % 5]); gh_reset();
	char *r = match_opcode_args(skip_whitespace(text + 3), ap, ae, op, &in);
	if (first < 0) CHECK(in == 0 && gh_err == 1, "operands that fit no row are an error");
	else CHECK(in == &rows[first] && gh_err == 0 && is_end_of_code_line(r), "the first row that fits is selected");
	if (in && ix[in - rows] == 4) CHECK(ae[0] - ap[0] >= 1 && *ap[0] == *skip_whitespace(text + 3) && (ap[1] == ae[1]) == (v == 0) && (v == 0 || (ae[1] - ap[1] == 2 && (*ap[1] == '-' || *ap[1] == '+'))), "the operands' texts");
}
#endif
