/* C11 statements: run_first_pass_line_sec, run_first_pass_line, run_first_pass. */
#ifdef NATIVE
#include <string>
#endif
#include "base.h"
#include "str.h"
#define NMAX 1000000
#ifdef NATIVE
opcode *all_opcodes;
static std::string g_log;
static void ev(const char *t, const char *s) { g_log += t; g_log += s; g_log += ';'; }
static label_t g_lbl[64]; static int g_nl;
static char g_out[4096];
label_t *add_label(char *name, int value) { char b[300]; snprintf(b, sizeof b, "%s@%d", name, value); ev("L", b); free(name); g_lbl[g_nl].value = value; return &g_lbl[g_nl++]; }
void add_reusable() { ev("R", ""); }
static char *upto(const char *t, const char *p) { const char *e = p; while (*e && *e != '\n' && *e != '\\') e++; ev(t, std::string(p, e).c_str()); return (char *)e; }
char *handle_directive(const char *p) { return upto("D", p); }
char *handle_preop(char *p) { return upto("P", p); }
define_t *search_defines(const char *n, bool s) { return 0; }
bool parse_num_now(const char *e, int *v) { *v = atoi(e); return strcmp(e, "bad") != 0; }
#include "pass_one.cpp"
#include "utils_inc.h"
DECL_IN(n) DECL_IN(it) DECL_IN(sep) DECL_IN(lm)
struct item { const char *text, *log; int err, equ, bytes; };
static const item items[] = {
	{"lab:", "Llab@%", 0, 0, 0}, {"lab2", "Llab2@%", 0, 0, 0}, {"Q_9:", "LQ_9@%", 0, 0, 0}, {"_", "R", 0, 0, 0}, {"_:", "R", 0, 0, 0}, {"_x:", "L_x@%", 0, 0, 0}, {"lab = 5", "Llab@%", 0, 5, 0}, {"lab= 77 ", "Llab@%", 0, 77, 0},
	{" nop", "", 0, 0, 1}, {"\tNOP", "", 0, 0, 1}, {"l1: nop ", "Ll1@%", 0, 0, 1}, {"l1:nop", "Ll1@%;Lnop@%", 0, 0, 0}, {".db 5,6", "Ddb 5,6", 0, 0, 0}, {" .db 7", "Ddb 7", 0, 0, 0}, {"l1: .org 3", "Ll1@%;Dorg 3", 0, 0, 0}, {"#if 1", "Pif 1", 0, 0, 0}, {"  #end", "Pend", 0, 0, 0},
	{"mac(5)", "", 1, 0, 0}, {" what", "", 1, 0, 0}, {" _mac", "", 1, 0, 0}, {"\t_", "", 1, 0, 0}, {"", "", 0, 0, 0}, {"  ", "", 0, 0, 0}, {"7", "", 1, 0, 0}, {"a: !", "La@%", 1, 0, 0}, {"_ nop", "R", 0, 0, 1}, {"lab = bad", "Llab@%", 0, -1, 0},
};
extern "C" void h_any(void) {
	static instr ins[1]; static opcode op; static char nm[20]; std::string text, want; int n = (int)IN(n, 1, 9), errs = 0, pc = 100, equ[64], values[64], k = 0, nl = 0; char b[64];
	ins[0].args = ""; ins[0].size = 1; ins[0].instr_size = 1; op.name = (char *)"nop"; op.instrs = ins; op.num_instrs = 1; op.next = 0; all_opcodes = &op;
	g_log = ""; g_nl = 0; last_label = 0; program_counter = 100; error_occurred = 0; mode = 0; out_ptr = output_contents = (unsigned char *)g_out; gh_reset(); line_num = 0; int lines = 1;
	bool fresh = true;
	for (int i = 0; i < n; i++) {
		snprintf(nm, sizeof nm, "it%d", i); int x = (int)vc_in(nm, 0, (int)(sizeof items / sizeof *items) - 1); const item &t = items[x];
		text += t.text;
		for (const char *c = t.log; *c; c++) { if (*c == '%') { snprintf(b, sizeof b, "%d", pc); want += b; } else want += *c; if (*c == 'L') values[nl++] = pc; }
		if (*t.log) want += ';';
		if (t.equ > 0) values[nl - 1] = t.equ;
		errs += t.err; pc += t.bytes;
		snprintf(nm, sizeof nm, "sp%d", i); int s = (int)vc_in(nm, 0, 4);
		if (t.err) s = 1; /* (where a statement in error ends is not specified) */
		if (s == 0) text += "\\"; else if (s == 1) { text += "\n"; lines++; } else if (s == 2) { text += " \\"; } else if (s == 3) { if (strchr(t.log, 'D') || strchr(t.log, 'P')) text += "\n"; else text += " ; x\n"; lines++; } else { text += "\r\n"; lines++; if (strchr(t.log, 'D') || strchr(t.log, 'P')) { ASSUME(0); } }
	}
	text += '\0';
	std::string copy = text;
	run_first_pass(&copy[0]);
	for (size_t i; (i = want.find(' ')) != want.npos && 0;) want.erase(i, 1);
	std::string a = g_log, w = want;
	/* trailing blanks of a directive's text are its own business */
	for (std::string *q : {&a, &w}) for (size_t i; (i = q->find(" ;")) != q->npos;) q->erase(i, 1);
	CHECK(a == w, "every statement is handled once, in order, as what it is");
	CHECK((int)program_counter == pc, "instructions are assembled where they stand");
	CHECK((int)(gh_err + gh_showerr) == errs, "anything else is an error");
	for (k = 0; k < nl && k < g_nl; k++) CHECK(g_lbl[k].value == values[k], "an equate gives the latest label its value");
	CHECK(line_num == lines || line_num == lines + 1, "lines are counted");
}
extern "C" void h_sec(void) { h_any(); }
extern "C" void h_line(void) { h_any(); }
extern "C" void h_pass(void) { h_any(); }
#else
long __CPROVER_uninterpreted_ws(long), __CPROVER_uninterpreted_ne(long), __CPROVER_uninterpreted_nl(long), __CPROVER_uninterpreted_end(long);
#define WS(p) __CPROVER_uninterpreted_ws(p)
#define NE(p) __CPROVER_uninterpreted_ne(p)
#define NL(p) __CPROVER_uninterpreted_nl(p)
#define END(p) __CPROVER_uninterpreted_end(p)
#define WS_OK(p) ASSUME(WS(p) >= (p) && WS(p) <= g_n && !sp_blank(CH(WS(p))) && (WS(p) == (p) ? !sp_blank(CH(p)) : sp_blank(CH(p)) && WS(p) > (p)))
#define NE_OK(p) ASSUME(NE(p) >= (p) && NE(p) <= g_n && !sp_name(CH(NE(p))) && (NE(p) == (p)) == !sp_name(CH(p)))
#define NL_OK(p) ASSUME(NL(p) >= (p) && NL(p) <= g_n && (NL(p) == (p)) == (CH(p) == 0))
#define END_OK(p) ASSUME(END(p) >= (p) && END(p) <= g_n)
char *vc_ws(const char *p) { CHECK(PTR_OK(p), "inside the text"); long o = OFF(p); WS_OK(o); return g_s + WS(o); }
char *vc_ne(const char *p) { CHECK(PTR_OK(p), "inside the text"); long o = OFF(p); NE_OK(o); return g_s + NE(o); }
char *vc_nl(const char *p) { CHECK(PTR_OK(p), "inside the text"); long o = OFF(p); NL_OK(o); return g_s + NL(o); }
bool vc_eocl(const char *p) { CHECK(PTR_OK(p), "inside the text"); return sp_eocl(CH(OFF(p))); }
#define skip_whitespace vc_ws
#define skip_to_name_end vc_ne
#define skip_to_next_line vc_nl
#define is_end_of_code_line vc_eocl
char g_one[3];
#ifdef VC_SEC
/* what was done, and where */
enum { NONE, OPC, DIR, PRE, REC, LAB, REUSE };
int g_did, g_then, g_freed, g_reads, g_parsed, g_num; char *g_at, *g_lend, *vc_ret; label_t g_l1, g_l2; bool g_numok;
char *vc_strndup(const char *s, size_t n) { CHECK(s == g_s && (long)n == NE(0) && g_did == NONE, "the label's name, up to where it ends"); g_lend = g_s + n; g_one[0] = (CH(0) == '_' && n == 1) ? '_' : 'x'; g_one[1] = 0; return g_one; }
void vc_free(void *p) { CHECK(p == g_one && g_freed == 0, "only its own text is released"); g_freed = 1; }
label_t *vc_add_label(char *name, int v) { CHECK(name == g_one && v == (int)program_counter && g_did == NONE && g_freed == 0, "the label is the current address"); g_did = LAB; g_freed = 1; return &g_l2; }
void vc_add_reusable(void) { CHECK(g_did == NONE, "once"); g_did = REUSE; }
#define THEN(w) { CHECK(g_then == NONE, "once"); g_then = w; g_at = (char *)p; return vc_ret; }
char *vc_dir(const char *p) THEN(DIR)
char *vc_pre(char *p) THEN(PRE)
char *vc_rec_run_first_pass_line_sec(char *p) THEN(REC)
bool vc_read(const char ** const ptr, char word[256], const char *d) { CHECK(g_then == NONE && g_reads == 0 && *ptr == g_s + 1 && d[0] == 0, "the value is the rest of the line"); END_OK(1); *ptr = g_s + END(1); word[0] = 'v'; word[255] = 0; g_reads++; return 1; }
bool vc_pnn(const char *e, int *v) { CHECK(g_reads == 1 && e[0] == 'v', "the value's text"); g_parsed++; *v = g_num; return g_numok; }
#define strndup vc_strndup
#define free vc_free
#define add_label vc_add_label
#define add_reusable vc_add_reusable
#define handle_directive vc_dir
#define handle_preop vc_pre
#define read_expr_impl vc_read
#define parse_num_now vc_pnn
#endif
#ifdef VC_LINE
extern long g_p; extern int g_first, g_null, g_cnt;
#endif
#ifdef VC_PASS
extern long g_p; extern int g_lines, g_want, g_stage, g_null;
int vc_ins(expand_buf *b, int o, const char *t, size_t n) { return o; }
#define eb_insert vc_ins
#define sprintf(...) 0
#define strlen(x) 0
#endif
#include "pass_one.cpp"
#ifdef VC_SEC
char *handle_opcode_or_macro(char *p) THEN(OPC)
DECL_IN(lab) DECL_IN(pc) DECL_IN(num) DECL_IN(ok)
HARNESS(h_sec) {
	g_s = IN_STR(0, g_n, 0, NMAX); ASSUME(g_s[g_n] == 0); g_o = 0; gh_reset();
	g_did = g_then = g_freed = g_reads = g_parsed = 0; g_num = nondet_vc_ll(); g_numok = nondet_vc_char() & 1; program_counter = nondet_vc_ll();
	int had = nondet_vc_char() & 1; label_t *before = had ? &g_l1 : 0; last_label = before; g_l1.value = 11; vc_ret = nondet_vc_char() ? g_s + g_n : 0;
	WS_OK(0); NE_OK(0); END_OK(1);
	long w = WS(0), e = NE(0); unsigned char c = CH(0);
	char *r = run_first_pass_line_sec(g_s);
	CHECK(IMP(g_then != NONE, r == vc_ret), "what is done there decides where the line goes on");
	if (sp_eocl(c)) CHECK(r == g_s && g_did == NONE && g_then == NONE && g_parsed == 0 && gh_err == 0, "nothing is done for a blank line or comment");
	else if (sp_alpha(c) || c == '_') {
		if (CH(e) == '(') CHECK(g_did == NONE && g_then == OPC && g_at == g_s && last_label == before, "a name directly before a parenthesis is a macro call");
		else {
			CHECK(IMP(c == '_' && e == 1, g_did == REUSE && last_label == before) && IMP(!(c == '_' && e == 1), g_did == LAB && last_label == &g_l2), "a name at the start is a label, a lone underscore a reusable one");
			CHECK(g_then == REC && g_at == g_s + e + (CH(e) == ':') && g_freed == 1, "the rest is a statement of its own");
		}
	} else if (sp_space(c)) {
		CHECK(g_did == NONE && last_label == before && g_at == g_s + w && g_then == (sp_alpha(CH(w)) || CH(w) == '_' ? OPC : REC), "a name after blanks is an instruction or macro");
	} else if (c == '.') CHECK(g_did == NONE && g_then == DIR && g_at == g_s + 1 && gh_err == 0, "a full stop starts a directive");
	else if (c == '#') CHECK(g_did == NONE && g_then == PRE && g_at == g_s + 1 && gh_err == 0, "a hash starts a preprocessor line");
	else if (c == '=') {
		CHECK(g_did == NONE && g_then == NONE && g_reads == 1 && g_parsed == 1 && r == g_s + END(1) && last_label == before, "an equate takes the rest of the line");
		CHECK(g_l1.value == (had && g_numok ? g_num : 11), "it gives the latest label its value");
		CHECK(gh_err == (g_numok && !had) && IMP(gh_err, gh_errcode == SPASM_ERR_EQUATE_MISSING_LABEL), "an equate without a label is an error");
	} else CHECK(r == g_s && gh_err == 1 && gh_errcode == SPASM_ERR_SYNTAX && g_did == NONE && g_then == NONE && g_parsed == 0, "anything else is a syntax error");
	REACH();
}
#endif
#ifdef VC_LINE
long g_p; int g_first, g_null, g_cnt;
char *run_first_pass_line_sec(char *p) {
	CHECK(SAMEOBJ(p, g_s) && OFF(p) == g_p + (CH(g_p) == '\\') && g_null == 0 && error_occurred == 0 && (g_first || CH(g_p) == '\\'), "statements are handled in order, each once");
	long o = OFF(p); g_first = 0; g_cnt = 1; if (nondet_vc_char()) error_occurred = 1;
	if (nondet_vc_char()) { g_null = 1; return 0; }
	END_OK(o); WS_OK(END(o)); g_p = WS(END(o)); return g_s + END(o);
}
HARNESS(h_line) {
	g_s = IN_STR(0, g_n, 0, NMAX); ASSUME(g_s[g_n] == 0); g_o = 0; error_occurred = 0; g_null = 0; g_first = 1; g_cnt = 0; g_p = nondet_vc_ll(); ASSUME(g_p >= 0 && g_p <= g_n); long at = g_p;
	char *r = run_first_pass_line(g_s + g_p);
	CHECK(g_cnt == 1 && (g_null ? r == 0 : r == g_s + g_p && g_p >= at), "the line ends behind its last statement");
	CHECK(IMP(!g_null && !error_occurred, CH(g_p) != '\\'), "every statement of the line is handled");
	REACH();
}
#endif
#ifdef VC_PASS
long g_p; int g_want, g_stage, g_null, g_lines, g_done;
char *run_first_pass_line(char *p) {
	CHECK(SAMEOBJ(p, g_s) && OFF(p) == g_p && CH(g_p) != 0 && g_null == 0 && error_occurred == 0 && g_stage == 0 && pass_one != 0, "lines are handled in order, each once");
	CHECK(line_num == g_want, "the line number");
	CHECK(IMP(mode & MODE_LIST, listing_width == 0 && line_start == p && old_line_num == line_num && listing_for_line_done == 0), "the listing starts afresh");
	CHECK(IMP(mode & MODE_EZ80, g_lines || adl_mode != 0), "eZ80 code starts in ADL mode");
	long o = g_p; g_lines = 1; if (nondet_vc_char()) error_occurred = 1;
	if (nondet_vc_char()) { g_null = 1; return 0; }
	line_num = nondet_vc_ll(); ASSUME(line_num >= 0 && line_num < 2000000000); g_want = line_num + 1; listing_for_line_done = nondet_vc_char() & 1; listing_on = nondet_vc_char() & 1; adl_mode = nondet_vc_char() & 1;
	END_OK(o); NL_OK(END(o)); ASSUME(IMP(CH(END(o)) == 0, END(o) > o)); /* (a text does not end where a line starts) */
	g_p = NL(END(o)); g_stage = (mode & MODE_LIST) && listing_on && !listing_for_line_done; return g_s + END(o);
}
void do_listing_for_line(char *p) { CHECK(g_stage == 1 && SAMEOBJ(p, g_s) && OFF(p) == g_p, "the listing of the line, once, with its text"); g_stage = 0; }
HARNESS(h_pass) {
	g_s = IN_STR(0, g_n, 0, NMAX); ASSUME(g_s[g_n] == 0); g_o = 0; error_occurred = nondet_vc_char() & 1; int err0 = error_occurred; g_null = g_stage = g_lines = 0; g_want = 1; g_p = nondet_vc_ll(); ASSUME(g_p >= 0 && g_p <= g_n); long at = g_p;
	mode = nondet_vc_ll(); listing_on = nondet_vc_char() & 1; adl_mode = nondet_vc_char() & 1; pass_one = nondet_vc_char() & 1; line_num = nondet_vc_ll();
	run_first_pass(g_s + g_p);
	CHECK(g_null || error_occurred || CH(g_p) == 0, "every line is handled, unless assembly is given up");
	CHECK(g_stage == 0 && pass_one != 0 && IMP(err0, g_lines == 0), "first pass");
	CHECK(IMP(!g_null, line_num == g_want), "lines are counted");
	REACH();
}
#endif
#endif
