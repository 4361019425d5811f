/* C02 instruction emission: write_instruction_data, and the program counter advance. */
#include "base.h"
#ifdef VC_BOUND
#define NPAT 4
#else
#define NPAT 10
#endif
#define NB 24
unsigned char outbuf[NB];
/* ghost log of the operands handed to the expression writer */
struct evt { long at; int type, size, orv, arg; } ev[4]; int nev;
char *arg_p[3], *arg_e[3]; long arg_n[3];
char *dup_p[3]; const char *cpy_src, *cpy_dst;
static inline int sp_isarg(int c) { return c == '*' || c == '&' || c == '%' || c == '@' || c == '^' || c == '#'; }
static inline int sp_width(int type) { return type == ARG_NUM_16 ? 2 : type == ARG_NUM_24 ? 3 : 1; }
#ifdef VC_PROOF
/* ghost automaton: sp_step is executed at the start of every iteration of the pattern loop and says what it must do */
struct gst { int a, expect, earg, bit, words, wo, nop, trail; } g;
int g_npre, g_suffix, g_il; unsigned char g_pre[9]; instr *g_in; long g_np;
static void sp_step(char c) {
	if (!sp_isarg(c)) return;
	__CPROVER_assume(g.a < 3); /* precondition: at most three operands in a row's pattern */
	g.earg = g.a++;
	switch (c) {
	case '*': g.expect = g_il ? ARG_NUM_24 : ARG_NUM_16; g.words += g_il; break;
	case '&': g.expect = ARG_NUM_8; break;
	case '%': g.expect = ARG_ADDR_OFFSET; break;
	case '#': g.expect = ARG_RST; break;
	case '^': g.bit = g.earg; break;
	case '@': g.expect = (arg_n[g.earg] && *arg_p[g.earg] != '+' && *arg_p[g.earg] != '-') ? -1 : ARG_IX_IY_OFFSET; break;
	}
}
#define SIZE_SO_FAR (g_in->size + (g_suffix >= 0) + g.words)
long dup_n[3];
size_t vc_strlen(const char *s) { CHECK(s == dup_p[0] || s == dup_p[1] || s == dup_p[2], "operand text"); return s == dup_p[0] ? dup_n[0] : s == dup_p[1] ? dup_n[1] : dup_n[2]; }
char *vc_strndup(const char *s, size_t n) {
	int k = g.earg;
	CHECK(k >= 0 && k < 3 && s == arg_p[k] && (long)n == arg_n[k], "the operand's own text is evaluated");
	return dup_p[k];
}
char *vc_strcpy(char *d, const char *s) { size_t n = vc_strlen(s); __CPROVER_assert(__CPROVER_w_ok(d, n + 1), "spec: copied text fits"); cpy_src = s; cpy_dst = d; return d; }
void vc_free(void *p) {}
#define strndup vc_strndup
#define strlen vc_strlen
#define strcpy vc_strcpy
#define free vc_free
int write_out(int val) {
	if (g.wo < g_npre) { CHECK(g.nop == 0 && (unsigned char)val == g_pre[g.wo], "prefix and opcode bytes, before any operand"); g.wo++; }
	else { CHECK(g.trail == 0 && g_in->has_end_data && g.bit < 0 && (unsigned char)val == g_in->end_data, "only the trailing byte follows"); g.trail++; }
	return val;
}
void add_pass_two_expr(char *text, arg_type type, int inst_size, int or_value) {
	CHECK(g.wo == g_npre && g.trail == 0, "operands follow the opcode bytes");
	if (type == ARG_BIT_NUM) {
		CHECK(g.expect == -1 && g.bit >= 0 && text == dup_p[g.bit] && g_in->has_end_data && or_value == g_in->end_data, "bit number operand");
		g.trail++;
	} else {
		CHECK(g.expect == (int)type, "kind and order of operands (24 bits exactly in long-immediate mode)");
		CHECK(or_value == 0, "no bits are merged into plain operands");
		CHECK(type == ARG_IX_IY_OFFSET ? (text[0] == '0' && cpy_dst == text + 1 && cpy_src == dup_p[g.earg]) : text == dup_p[g.earg], "operand text");
		CHECK(IMP(type == ARG_ADDR_OFFSET, inst_size == SIZE_SO_FAR), "relative jumps are measured from the end of the instruction");
		g.expect = -1; g.nop++;
	}
}
#else
#if !defined(NATIVE) && !defined(VC_PC)
int write_out(int val) { *out_ptr++ = (unsigned char)val; return val; } /* contract of write_out: verified in the output-buffer property */
char *strndup(const char *s, size_t n) { char *r = (char *)malloc(n + 1); __CPROVER_assume(r != 0); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
#endif
#ifdef VC_PC
int strcasecmp(const char *a, const char *b) { return 1; }
#endif
void add_pass_two_expr(char *text, arg_type type, int inst_size, int or_value) {
	int k;
	for (k = 2; k >= 0; k--) {
		const char *t = type == ARG_IX_IY_OFFSET ? text + 1 : text;
		if (type == ARG_IX_IY_OFFSET && text[0] != '0') continue;
		long i = 0; while (i < arg_n[k] && t[i] == arg_p[k][i]) i++;
		if (i == arg_n[k] && t[i] == 0) break;
	}
	CHECK(nev < 4, "at most one evaluation per operand");
	if (nev < 4) { ev[nev].at = out_ptr - outbuf; ev[nev].type = type; ev[nev].size = inst_size; ev[nev].orv = or_value; ev[nev].arg = k; nev++; }
	for (int i = 0; i < sp_width(type); i++) *out_ptr++ = 0;
}
#endif
/* the specification: what must be emitted, in order */
struct spec { unsigned char b[NB]; int isop[NB]; long n; struct evt e[4]; int ne; int size, consistent; } sp;
static void sp_emit(int c) { sp.b[sp.n] = (unsigned char)c; sp.isop[sp.n] = 0; sp.n++; }
static void sp_operand(int type, int arg, int orv) {
	sp.e[sp.ne].at = sp.n; sp.e[sp.ne].type = type; sp.e[sp.ne].arg = arg; sp.e[sp.ne].orv = orv; sp.ne++;
	for (int i = 0; i < sp_width(type); i++) { sp.isop[sp.n] = 1; sp.n++; }
}
static void sp_instruction(instr *in, int suffix) {
	static const unsigned char prefix[4] = {0x40, 0x49, 0x52, 0x5B}; /* .sis .lis .sil .lil */
	sp.n = 0; sp.ne = 0; sp.size = in->size;
	int il = suffix >= 0 ? (suffix & SUFFIX_IL) : ((mode & MODE_EZ80) && adl_mode), bit = -1, a = 0, width = 0;
	if (suffix >= 0) { sp_emit(prefix[suffix]); sp.size++; }
	for (int i = 8; i > 0; i--) if (i <= in->instr_size) sp_emit(in->instr_data[i - 1]);
	for (int i = 0; i < NPAT; i++) {
		if (!in->args[i]) break;
		switch (in->args[i]) {
		case '*': if (il) { sp_operand(ARG_NUM_24, a++, 0); sp.size++; } else sp_operand(ARG_NUM_16, a++, 0); width += 2; break;
		case '&': sp_operand(ARG_NUM_8, a++, 0); width++; break;
		case '%': sp_operand(ARG_ADDR_OFFSET, a++, 0); width++; break;
		case '@': if (arg_n[a] && *arg_p[a] != '+' && *arg_p[a] != '-') sp.e[3].at = -1; else sp_operand(ARG_IX_IY_OFFSET, a, 0); a++; width++; break;
		case '#': sp_operand(ARG_RST, a++, 0); width++; break;
		case '^': bit = a++; break;
		}
	}
	if (in->has_end_data) { if (bit >= 0) sp_operand(ARG_BIT_NUM, bit, in->end_data); else sp_emit(in->end_data); width++; }
	sp.consistent = in->size == in->instr_size + width;
}
#define sp_alnum_name(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z') || ((c) >= '0' && (c) <= '9') || (c) == '_' || (c) == '.')
#include "pass_one.cpp"
bool is_arg(char c) { return sp_isarg(c); } /* verified in C14 */
#ifndef NATIVE
char pattern[NPAT + 1];
#endif
DECL_IN(suffix) DECL_IN(mode) DECL_IN(adl) DECL_IN(size) DECL_IN(isize) DECL_IN(hasend) DECL_IN(end) DECL_IN(pc)
DECL_IN(d0) DECL_IN(d1) DECL_IN(d2) DECL_IN(d3) DECL_IN(d4) DECL_IN(d5) DECL_IN(d6) DECL_IN(d7)
static int instr_inputs(instr *in) {
	int suffix = (int)IN(suffix, -1, 3);
	mode = (unsigned)IN(mode, 0, 127); mode |= MODE_NORMAL; NATIVE_ONLY(mode &= ~MODE_LIST;)
	adl_mode = IN(adl, 0, 1);
	in->size = (int)IN(size, 0, 16); in->instr_size = (int)IN(isize, 0, 8);
	in->has_end_data = IN(hasend, 0, 1); in->end_data = (unsigned char)IN(end, 0, 255);
	in->instr_data[0] = (unsigned char)IN(d0, 0, 255); in->instr_data[1] = (unsigned char)IN(d1, 0, 255); in->instr_data[2] = (unsigned char)IN(d2, 0, 255); in->instr_data[3] = (unsigned char)IN(d3, 0, 255);
	in->instr_data[4] = (unsigned char)IN(d4, 0, 255); in->instr_data[5] = (unsigned char)IN(d5, 0, 255); in->instr_data[6] = (unsigned char)IN(d6, 0, 255); in->instr_data[7] = (unsigned char)IN(d7, 0, 255);
	return suffix;
}
#ifndef VC_PROOF
HARNESS(h_emit) {
	instr in; long np, na = 0, ixbad = 0;
	VC_CHARSET("*&%@^#,()*");
	NATIVE_ONLY(in.args = IN_STR(0, np, 0, NPAT);)
	CBMC_ONLY(for (int i = 0; i < NPAT; i++) pattern[i] = nondet_vc_char(); pattern[NPAT] = 0; in.args = pattern;)
	VC_CHARSET("+-()1a( ");
	arg_p[0] = IN_STR(1, arg_n[0], 0, 300); arg_p[1] = IN_STR(2, arg_n[1], 0, 300); arg_p[2] = IN_STR(3, arg_n[2], 0, 300);
	for (int i = 0; i < NPAT; i++) { if (!in.args[i]) break; if (sp_isarg(in.args[i])) { if (na < 3 && in.args[i] == '@' && arg_n[na] && *arg_p[na] != '+' && *arg_p[na] != '-') ixbad = 1; na++; } }
	ASSUME(na <= 3);
	for (int k = 0; k < 3; k++) { arg_e[k] = arg_p[k] + arg_n[k]; dup_p[k] = 0; }
	int suffix = instr_inputs(&in);
	gh_reset(); nev = 0; cpy_src = cpy_dst = 0;
	for (int i = 0; i < NB; i++) outbuf[i] = 0xA5;
	out_ptr = outbuf; NATIVE_ONLY(output_contents = outbuf;)
	sp_instruction(&in, suffix);
	int size = write_instruction_data(&in, arg_p, arg_e, suffix);
	CHECK((gh_err != 0) == (ixbad != 0), "an error is raised exactly for an index offset without a sign");
	CHECK(size == sp.size, "reported size: table size, plus the suffix byte, plus one per 24-bit operand");
	if (!ixbad) {
		CHECK(out_ptr == outbuf + sp.n, "number of bytes emitted");
		CHECK(nev == sp.ne, "every operand is evaluated exactly once");
		for (int i = 0; i < NB; i++) if (i < sp.n && !sp.isop[i]) CHECK(outbuf[i] == sp.b[i], "prefix, opcode and trailing bytes");
		for (int i = 0; i < 4; i++) if (i < sp.ne) {
			CHECK(ev[i].at == sp.e[i].at, "operand position"); CHECK(ev[i].type == sp.e[i].type, "operand kind (24 bits exactly in long-immediate mode)");
			CHECK(ev[i].orv == sp.e[i].orv, "bit number operands are combined with the final opcode byte");
			CHECK(ev[i].arg == sp.e[i].arg || (ev[i].arg >= 0 && sp.e[i].arg >= 0 && arg_n[ev[i].arg] == arg_n[sp.e[i].arg]), "operand text");
			if (sp.e[i].type == ARG_ADDR_OFFSET && (na == 1 || sp.size == in.size + (suffix >= 0))) CHECK(ev[i].size == sp.size, "relative jumps are measured from the end of the instruction");
		}
		if (sp.consistent) CHECK(out_ptr == outbuf + size, "lemma: for a consistent table row the reported size is the number of bytes emitted");
	}
	REACH();
}
#else
HARNESS(h_emit) {
	instr in; in.args = IN_STR(0, g_np, 0, 1000000);
	for (int k = 0; k < 3; k++) {
		arg_n[k] = nondet_vc_ll(); __CPROVER_assume(arg_n[k] >= 0 && arg_n[k] < 1000000);
		arg_p[k] = (char *)malloc(arg_n[k] + 1); dup_p[k] = (char *)malloc(arg_n[k] + 1); __CPROVER_assume(arg_p[k] && dup_p[k]);
		arg_e[k] = arg_p[k] + arg_n[k]; dup_n[k] = arg_n[k]; dup_p[k][arg_n[k]] = 0; /* source text has no NUL inside an operand */
		if (arg_n[k]) { __CPROVER_assume(arg_p[k][0] != 0); dup_p[k][0] = arg_p[k][0]; }
	}
	int suffix = instr_inputs(&in);
	gh_reset(); g_in = &in; g_suffix = suffix; g_npre = 0;
	g_il = suffix >= 0 ? suffix / 2 : ((mode & MODE_EZ80) && adl_mode);
	static const unsigned char prefix[4] = {0x40, 0x49, 0x52, 0x5B}; /* .sis .lis .sil .lil */
	if (suffix >= 0) g_pre[g_npre++] = prefix[suffix];
	for (int i = 8; i > 0; i--) if (i <= in.instr_size) g_pre[g_npre++] = in.instr_data[i - 1];
	g.a = g.words = g.wo = g.nop = g.trail = 0; g.expect = g.earg = g.bit = -1;
	int size = write_instruction_data(&in, arg_p, arg_e, suffix);
	CHECK(g.wo == g_npre, "all opcode bytes are emitted");
	CHECK(g.expect == -1, "no operand is left out");
	CHECK(g.trail == in.has_end_data, "the trailing byte is emitted");
	CHECK(size == SIZE_SO_FAR, "reported size: table size, plus the suffix byte, plus one per 24-bit operand");
	REACH();
}
#endif
#ifndef VC_PROOF
char *skip_to_name_end(const char *p) { while (sp_alnum_name(*p)) p++; return (char *)p; }
char *skip_whitespace(const char *p) { while (*p == ' ' || *p == 9) p++; return (char *)p; }
bool is_end_of_code_line(const char *p) { return *p == 0 || *p == 10 || *p == 13 || *p == ';' || *p == '\\'; }
bool is_name_char(char c) { return sp_alnum_name(c); }
opcode *all_opcodes;
/* the address counter: a three opcode table, the mnemonic written in any case, with and without suffix */
DECL_IN(which) DECL_IN(case0) DECL_IN(case1) DECL_IN(sfx) DECL_IN(tail)
static void pc_case(int w, int s, int c0, int c1, int ez80, int tail) {
	static const char *nm[3] = {"AB", "A", "ABX"};
	static const char *sf[5] = {"", ".S", ".lis", ".sil", ".il"};
	static instr rows[3]; static opcode tab[3]; char text[12]; int n = 0;
	for (int i = 0; i < 3; i++) {
		rows[i].args = ""; rows[i].instr_size = i + 1; rows[i].size = i + 1 + 2; rows[i].has_end_data = false; /* sizes differ from the byte count on purpose */
		tab[i].name = nm[i]; tab[i].instrs = &rows[i]; tab[i].num_instrs = 1; tab[i].next = i < 2 ? &tab[i + 1] : 0; tab[i].use_count = 0;
		for (int k = 0; k < 8; k++) rows[i].instr_data[k] = 16 * i + k;
	}
	all_opcodes = tab;
	mode = MODE_NORMAL | (ez80 ? MODE_EZ80 : 0);
	adl_mode = IN(adl, 0, 1);
	for (int i = 0; nm[w][i]; i++) text[n++] = nm[w][i] + ((i & 1 ? c1 : c0) ? 32 : 0);
	for (int i = 0; sf[s][i]; i++) text[n++] = sf[s][i];
	text[n++] = "\n; \\"[tail]; text[n] = 0;
	program_counter = (unsigned)IN(pc, 0, 0xFFFFFFFF);
	unsigned pc0 = program_counter;
	out_ptr = output_contents = outbuf; gh_reset(); error_occurred = false;
	handle_opcode_or_macro(text);
	CHECK(gh_err == 0 && gh_showerr == 0, "the mnemonic is recognised in any case");
	CHECK(program_counter == pc0 + (unsigned)(rows[w].size + (s != 0)), "the address counter advances by the instruction's reported size");
	CHECK(out_ptr == outbuf + w + 1 + (s != 0), "the row's bytes are emitted");
	for (int k = 0; k <= 2; k++) if (k <= w) CHECK(outbuf[(s != 0) + k] == 16 * w + (w - k), "the row's bytes, most significant first");
}
HARNESS(h_pc) {
	/* the verifier runs through the cases one by one (address counter and long mode stay symbolic) */
	CBMC_ONLY(for (int w = 0; w < 3; w++) for (int s = 0; s < 6; s++) pc_case(w, s % 5, w & 1, s & 1, s > 0, s & 3);)
	NATIVE_ONLY(int ez = (int)IN(mode, 0, 1); pc_case((int)IN(which, 0, 2), ez ? (int)IN(sfx, 0, 4) : 0, (int)IN(case0, 0, 1), (int)IN(case1, 0, 1), ez, (int)IN(tail, 0, 3));)
	REACH();
}
#endif
