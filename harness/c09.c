/* C09 forward references: add_pass_two_expr, add_pass_two_output, run_second_pass (pass_two.cpp). */
#include "base.h"
#ifdef NATIVE
#include "hash.h"
#endif
static inline int sp_width(int type) { return type == ARG_NUM_16 ? 2 : type == ARG_NUM_24 ? 3 : 1; }
int g_reus; /* position in the reusable labels */
int vc_get_reus(void) { return g_reus; }
int vc_set_reus(int i) { g_reus = i; return 0; }
#ifndef NATIVE
#define get_curr_reusable vc_get_reus
#define set_curr_reusable vc_set_reus
struct { int sess, replayed, ended, parses, parse_ok, fatal, value, writes, expands, frees; } g;
#ifdef VC_ADD
char g_text[2], g_copy[2], g_dup[2]; int g_type, g_isize, g_orv; expr_t g_head, g_tail, g_headcopy;
int StartSPASMErrorSession(void) { g.sess++; return 7; }
void ReplaySPASMErrorSession(int s, bool f) { CHECK(s == 7 && g.ended == 0, "the operand's own diagnostics are replayed"); g.replayed++; }
void EndSPASMErrorSession(int s) { CHECK(s == 7 && g.ended == 0, "the session ends once"); g.ended++; }
bool IsSPASMErrorSessionFatal(int s) { CHECK(s == 7 && g.ended == 0, "session"); return g.fatal; }
bool parse_num(const char *e, int *v) { CHECK(e == g_text && v != 0 && g.sess == 1 && g.ended == 0, "the operand itself is evaluated, its diagnostics collected"); g.parses++; *v = g.parse_ok ? g.value : 0; return g.parse_ok; }
char *expand_expr(const char *e, bool l) { CHECK(e == g_text, "the saved text is the operand's"); g.expands++; return g_copy; }
char *vc_strdup(const char *e) { CHECK(e == g_text, "the saved text"); g.expands++; return g_dup; }
#define strdup vc_strdup
void write_arg(int value, arg_type type, int inst_size, int or_value) {
	g.writes++;
	CHECK(inst_size == g_isize, "instruction size");
	if (g.parse_ok) CHECK(value == g.value && (int)type == g_type && or_value == g_orv, "a known value is written at once");
	else CHECK(value == 0 && sp_width(type) == sp_width(g_type) && type != ARG_ADDR_OFFSET, "an unknown value reserves exactly its width, without diagnostics");
}
#else
/* one node stands for every node of the list: freeing it turns it into the next (arbitrary) node, so the loop contract covers
 * lists of any length */
expr_t X; output_t Y; long g_left, g_oleft; char tx[2], ty[2], fx[2], fy[2], fz[2], fw[2]; int g_phase; unsigned char obuf[16]; define_t g_def;
unsigned char *g_out; int g_lo, g_ret; char *g_file;
static void next_x(void) {
	X.program_counter = (int)nondet_vc_ll(); X.line_num = (int)nondet_vc_ll(); X.curr_reusable = (int)nondet_vc_ll(); X.out_ptr = obuf + (nondet_vc_ll() & 15); X.listing_offset = (int)nondet_vc_ll();
	X.expr = tx; X.type = (arg_type)(nondet_vc_ll() & 7); X.input_file = nondet_vc_char() ? fx : fy; X.listing_on = nondet_vc_char() & 1; X.inst_size = (int)nondet_vc_ll(); X.or_value = (int)nondet_vc_ll();
	X.next = g_left > 1 ? &X : 0;
	g.parses = g.writes = g.frees = 0; g.parse_ok = nondet_vc_char() & 1; g.value = (int)nondet_vc_ll();
}
static void next_y(void) {
	Y.program_counter = (int)nondet_vc_ll(); Y.line_num = (int)nondet_vc_ll(); Y.curr_reusable = (int)nondet_vc_ll(); Y.expr = ty; Y.input_file = nondet_vc_char() ? fx : fy; Y.type = nondet_vc_char() ? OUTPUT_ECHO : OUTPUT_SHOW;
	Y.next = g_oleft > 1 ? &Y : 0;
	g.parses = g.writes = g.frees = g.sess = g.replayed = g.ended = 0; g.parse_ok = nondet_vc_char() & 1;
}
bool parse_num(const char *e, int *v) {
	CHECK(g_left > 0 && e == tx && g.frees == 0, "the saved operand is evaluated");
	CHECK(program_counter == (unsigned)X.program_counter && line_num == X.line_num && curr_input_file == X.input_file && g_reus == X.curr_reusable, "in the context in which it was written");
	CHECK(!pass_one, "second pass");
	g.parses++; *v = g.parse_ok ? g.value : 0; return g.parse_ok;
}
void write_arg(int value, arg_type type, int inst_size, int or_value) {
	CHECK(g_left > 0 && g.parses == 1 && g.parse_ok && g.writes == 0, "written once, when its value is known");
	CHECK(value == g.value && type == X.type && inst_size == X.inst_size && or_value == X.or_value, "the value, in the form asked for");
	CHECK(out_ptr == X.out_ptr && program_counter == (unsigned)X.program_counter, "over its placeholder");
	CHECK(IMP(mode & MODE_LIST, listing_offset == X.listing_offset && listing_on == X.listing_on), "in its listing row");
	g.writes++; out_ptr = (unsigned char *)((char *)out_ptr + sp_width(type) * 0); listing_offset = (int)nondet_vc_ll();
}
void vc_free(void *p) {
	if (p == tx || p == ty) { CHECK(g.frees == 0 && g.parses == 1 && (p == tx ? g_left > 0 : g_left == 0 && g_oleft > 0), "the text is released after its last use"); g.frees++; }
	else if (p == &X) { CHECK(g_left > 0 && g.frees == 1 && g.parses == 1 && g.writes == (g.parse_ok != 0), "every saved operand is evaluated and written"); g_left--; if (g_left) next_x(); else next_y(); }
	else if (p == &Y) { CHECK(g_left == 0 && g_oleft > 0 && g.frees == 1 && g.parses == 1, "every saved output is shown"); if (Y.type == OUTPUT_ECHO) CHECK(g.sess == 1 && g.replayed == 1 && g.ended == 1, "diagnostics of an echo are shown"); g_oleft--; if (g_oleft) next_y(); }
	else CHECK(0, "only list nodes and their texts are released");
}
#define free vc_free
int StartSPASMErrorSession(void) { g.sess++; return 7; }
void ReplaySPASMErrorSession(int s, bool f) { CHECK(s == 7 && g.ended == 0, "session"); g.replayed++; }
void EndSPASMErrorSession(int s) { CHECK(s == 7, "session"); g.ended++; }
#define OUT_CTX CHECK(g_left == 0 && g_oleft > 0 && g.frees == 0 && program_counter == (unsigned)Y.program_counter && line_num == Y.line_num && curr_input_file == Y.input_file && g_reus == Y.curr_reusable && !pass_one, "saved output is shown after the operands, in order, in its context")
char *parse_emit_string(const char *e, ES_TYPE how, void *t) { CHECK(e == ty && how == ES_ECHO && Y.type == OUTPUT_ECHO && g.sess == 1 && g.ended == 0, "echo"); OUT_CTX; g.parses++; return 0; }
define_t *search_defines(const char *n, bool l) { CHECK(n == ty && Y.type == OUTPUT_SHOW, "show"); OUT_CTX; g.parses++; return nondet_vc_char() ? &g_def : 0; }
void show_define(define_t *d) { CHECK(d == &g_def, "show"); }
WORD save_console_attributes(void) { return 0; } BOOL set_console_attributes(unsigned short a) { return true; } void restore_console_attributes(WORD a) {}
#endif
#else
#define get_curr_reusable vc_get_reus
#define set_curr_reusable vc_set_reus
#endif
#include "pass_two.cpp"
#ifndef NATIVE
DECL_IN(type) DECL_IN(ok) DECL_IN(fatal) DECL_IN(value) DECL_IN(isize) DECL_IN(orv) DECL_IN(shape) DECL_IN(mode)
#ifdef VC_ADD
HARNESS(h_add) {
	unsigned char obuf[4]; static char fn[4];
	g_type = (int)IN(type, 0, 6); g_isize = (int)IN(isize, 0, 100); g_orv = (int)IN(orv, -2147483648LL, 2147483647LL); mode = (unsigned)IN(mode, 0, 127);
	g.parse_ok = (int)IN(ok, 0, 1); g.fatal = (int)IN(fatal, 0, 1); g.value = (int)IN(value, -2147483648LL, 2147483647LL);
	ASSUME(!g.parse_ok || !g.fatal);
	g.sess = g.replayed = g.ended = g.parses = g.writes = g.expands = 0;
	int shape = (int)IN(shape, 0, 2);
	program_counter = (unsigned)nondet_vc_ll(); line_num = (int)nondet_vc_ll(); g_reus = (int)nondet_vc_ll(); out_ptr = obuf + 1; listing_offset = (int)nondet_vc_ll(); curr_input_file = fn; listing_on = nondet_vc_char() & 1;
	unsigned pc = program_counter; int ln = line_num, re = g_reus, lo = listing_offset, on = listing_on;
	g_tail.next = 0; g_head.next = &g_tail; g_tail.expr = g_head.expr = 0;
	expr_list = shape == 0 ? 0 : shape == 1 ? &g_tail : &g_head; expr_list_tail = shape == 0 ? 0 : &g_tail;
	expr_t h0 = g_head, t0 = g_tail;
	add_pass_two_expr(g_text, (arg_type)g_type, g_isize, g_orv);
	CHECK(g.sess == 1 && g.ended == 1 && g.parses == 1, "one evaluation, in one session");
	int saved = !g.parse_ok && !g.fatal;
	CHECK(g.writes == (g.parse_ok || !g.fatal), "the operand is written, or reserved, once");
	CHECK(g.replayed == !saved, "only diagnostics of a deferred operand are dropped (the second pass repeats them)");
	CHECK(program_counter == pc && line_num == ln && g_reus == re && listing_offset == lo && listing_on == on && curr_input_file == fn && out_ptr == obuf + 1, "the assembly state is untouched");
	if (!saved) {
		CHECK(expr_list == (shape == 0 ? 0 : shape == 1 ? &g_tail : &g_head) && expr_list_tail == (shape == 0 ? 0 : &g_tail) && g_tail.next == 0 && g_head.next == &g_tail, "nothing is deferred");
	} else {
		expr_t *n = expr_list_tail;
		CHECK(n != 0 && n != &g_tail && n != &g_head && n->next == 0, "a new last entry");
		CHECK(shape == 0 ? expr_list == n : (expr_list == (shape == 1 ? &g_tail : &g_head) && g_tail.next == n), "entries stay in source order");
		CHECK(n->program_counter == (int)pc && n->line_num == ln && n->curr_reusable == re && n->out_ptr == obuf + 1 && n->input_file == fn, "the context is saved");
		CHECK(IMP(mode & MODE_LIST, n->listing_offset == lo && n->listing_on == on), "the listing position is saved");
		CHECK((int)n->type == g_type && n->inst_size == g_isize && n->or_value == g_orv && n->expr == g_copy && g.expands == 1, "the operand is saved with its macros expanded");
	}
	t0.next = g_tail.next;
	CHECK(g_head.expr == h0.expr && g_head.next == h0.next && g_tail.expr == 0, "earlier entries are untouched");
	REACH();
}
HARNESS(h_add_out) {
	static char fn[4]; static output_t tail;
	int type = (int)IN(type, 0, 1), shape = (int)IN(shape, 0, 1);
	program_counter = (unsigned)nondet_vc_ll(); line_num = (int)nondet_vc_ll(); g_reus = (int)nondet_vc_ll(); curr_input_file = fn;
	unsigned pc = program_counter; int ln = line_num, re = g_reus;
	tail.next = 0; output_list = output_list_tail = shape ? &tail : 0; g.expands = 0;
	add_pass_two_output(g_text, (output_type)type);
	output_t *n = output_list_tail;
	CHECK(n && n != &tail && n->next == 0 && (shape ? output_list == &tail && tail.next == n : output_list == n), "a new last entry, in order");
	CHECK(n->program_counter == (int)pc && n->line_num == ln && n->curr_reusable == re && n->input_file == fn && (int)n->type == type && n->expr == (type == OUTPUT_SHOW ? g_dup : g_copy) && g.expands == 1, "the output is saved with its context");
	REACH();
}
#else
HARNESS(h_run) {
	g_left = (long)nondet_vc_ll(); g_oleft = (long)nondet_vc_ll();
	ASSUME(g_left >= 0 && g_left < (1L << 40) && g_oleft >= 0 && g_oleft < (1L << 40));
#ifdef VC_BOUND
	ASSUME(g_left <= VC_BOUND && g_oleft <= VC_BOUND);
#endif
	mode = (unsigned)IN(mode, 0, 127);
	if (g_left) next_x(); else next_y();
	expr_list = g_left ? &X : 0; output_list = g_oleft ? &Y : 0;
	out_ptr = g_out = obuf + (nondet_vc_ll() & 15); listing_offset = g_lo = (int)nondet_vc_ll(); curr_input_file = g_file = fz; pass_one = true;
	run_second_pass();
	CHECK(g_left == 0 && g_oleft == 0 && expr_list == 0 && output_list == 0, "every entry is handled");
	CHECK(out_ptr == g_out && curr_input_file == g_file && IMP(mode & MODE_LIST, listing_offset == g_lo) && !pass_one, "the end of the output is where the first pass left it");
	REACH();
}
#endif
#else
/* native: a value that is known only on the second pass ends up exactly as if it had been known at once */
struct op { int type, isize, orv, value, fwd, pc, line, reus; char *file; } ops[8]; int nops, seen[8];
bool parse_num(const char *e, int *v) {
	int i = atoi(e + 1);
	CHECK(i >= 0 && i < nops, "the saved operand is evaluated");
	if (pass_one && ops[i].fwd) { *v = 0; return false; }
	CHECK(program_counter == (unsigned)ops[i].pc && line_num == ops[i].line && curr_input_file == ops[i].file && g_reus == ops[i].reus, "in the context in which it was written");
	*v = ops[i].value; seen[i]++; return true;
}
unsigned char bufA[64], bufB[64];
int write_out(int val) { *out_ptr++ = (unsigned char)val; return val; }
int StartSPASMErrorSession(void) { return 7; } void ReplaySPASMErrorSession(int s, bool f) {} void EndSPASMErrorSession(int s) {} bool IsSPASMErrorSessionFatal(int s) { return false; }
char *expand_expr(const char *e, bool l) { return strdup(e); }
HARNESS(h_run) {
	static char f1[2], f2[2]; char t[8];
	nops = (int)IN(n, 1, 6); mode = MODE_NORMAL | (IN(ez, 0, 1) ? MODE_EZ80 : 0); pass_one = true; expr_list = expr_list_tail = NULL; output_list = output_list_tail = NULL;
	memset(bufA, 0, 64); memset(bufB, 0, 64); gh_reset(); memset(seen, 0, sizeof seen);
	unsigned char *pb = bufB; out_ptr = bufA; unsigned base = (unsigned)IN(pc, 0, 70000), errs = 0, warns = 0;
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i]; char nm[8];
		long x = IN(op, 0, 2147483647LL), v = IN(v, -300, 300);
		o->type = x % 7; o->isize = 1 + x / 7 % 4; o->orv = x / 64 % 256; o->fwd = x / 16384 % 4 != 0; o->pc = base; o->line = i + 10; o->reus = (int)(x / 65536 % 5); o->file = x & 1 ? f1 : f2;
		o->value = o->type == ARG_ADDR_OFFSET ? (int)(base + v) : o->type == ARG_RST ? (int)((v & 7) * 8) : o->type == ARG_BIT_NUM ? (int)(v & 7) : o->type == ARG_IX_IY_OFFSET ? (int)(signed char)v : (int)(v * (x % 1000));
		program_counter = o->pc; line_num = o->line; g_reus = o->reus; curr_input_file = o->file;
		sprintf(t, "v%d", i);
		struct vc_ghost keep = gh; gh_reset();
		unsigned char *pa = out_ptr; out_ptr = pb; write_arg(o->value, (arg_type)o->type, o->isize, o->orv); pb = out_ptr; out_ptr = pa; errs += gh_err + gh_showerr; warns += gh_warn;
		gh = keep;
		add_pass_two_expr(t, (arg_type)o->type, o->isize, o->orv);
		base += o->isize;
	}
	int na = out_ptr - bufA;
	run_second_pass();
	CHECK(out_ptr - bufA == na && expr_list == NULL, "the output position is kept");
	for (int i = 0; i < nops; i++) CHECK(seen[i] == 1, "every operand is evaluated once");
	CHECK(gh_err + gh_showerr == errs && gh_warn == warns, "the same diagnostics");
	if (!errs) CHECK(na == pb - bufB && !memcmp(bufA, bufB, 64), "the same bytes as if every value had been known at once");
}
void VC_ENTRY_dummy() {}
HARNESS(h_add) { h_run(); }
#endif
