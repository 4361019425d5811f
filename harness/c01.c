/* C01 operand encoding: write_arg (pass_two.cpp) against the encoding rules of Z80/eZ80 operands. */
#include "base.h"

/* ---- specification (shared by the contract and the native replay) ---- */
static inline int sp_ez80(void) { return (mode & MODE_EZ80) != 0; }
static inline long sp_mask(void) { return sp_ez80() ? 0xFFFFFFL : 0xFFFFL; }
/* distance from the end of the instruction, without wrap-around */
static inline long sp_dist(int value, unsigned pc, int inst_size) {
	return ((long)(unsigned)value & sp_mask()) - (((long)pc & sp_mask()) + inst_size);
}
static inline int sp_ok(int value, int type, unsigned pc, int inst_size) {
	switch (type) {
	case ARG_ADDR_OFFSET: return sp_dist(value, pc, inst_size) >= -128 && sp_dist(value, pc, inst_size) <= 127;
	case ARG_IX_IY_OFFSET: return value >= -128 && value <= 127;
	case ARG_BIT_NUM: return value >= 0 && value <= 7;
	case ARG_RST: return value >= 0 && value <= 0x38 && value % 8 == 0;
	default: return 1;
	}
}
static inline int sp_len(int value, int type) {
	switch (type) {
	case ARG_NUM_16: return 2;
	case ARG_NUM_24: return 3;
	case ARG_RST: return sp_ok(value, type, 0, 0) ? 1 : 0;
	default: return 1;
	}
}
static inline unsigned char sp_byte(int value, int type, unsigned pc, int inst_size, int or_value, int i) {
	long v = sp_ok(value, type, pc, inst_size) ? value : 0;
	switch (type) {
	case ARG_NUM_8: return (unsigned char)((unsigned)value % 256);
	case ARG_NUM_16: case ARG_NUM_24:
		return (unsigned char)(i == 0 ? (unsigned)value : i == 1 ? (unsigned)value / 256 : (unsigned)value / 65536);
	case ARG_ADDR_OFFSET: v = sp_ok(value, type, pc, inst_size) ? sp_dist(value, pc, inst_size) : 0; return (unsigned char)(v + 256);
	case ARG_IX_IY_OFFSET: return (unsigned char)(v + 256);
	case ARG_BIT_NUM: return (unsigned char)((v * 8) | or_value);
	default: return (unsigned char)(v + 0xC7);
	}
}
static inline int sp_warns(int value, int type) {
	return (type == ARG_NUM_8 && (value < -128 || value > 255)) || (type == ARG_NUM_16 && sp_ez80() && (value < -32768 || value > 65535));
}
static inline int sp_diag_ok(int value, int type, unsigned pc, int inst_size) {
	int bad = !sp_ok(value, type, pc, inst_size);
	return gh_err + gh_showerr == bad && gh_warn == sp_warns(value, type) && gh_showwarn == 0
		&& IMP(bad && type == ARG_ADDR_OFFSET, gh_errcode == SPASM_ERR_JUMP_EXCEEDED)
		&& IMP(bad && type == ARG_IX_IY_OFFSET, gh_errcode == SPASM_ERR_INDEX_OFFSET_EXCEEDED)
		&& IMP(bad && type == ARG_RST, gh_errcode == SPASM_ERR_INVALID_RST_OPERANDS)
		&& IMP(gh_warn && type == ARG_NUM_8, gh_warncode == SPASM_WARN_TRUNCATING_8)
		&& IMP(gh_warn && type == ARG_NUM_16, gh_warncode == SPASM_WARN_TRUNCATING_16);
}
#define NBUF 8
unsigned char outbuf[NBUF];

#ifndef NATIVE
/* callee contract (write_out itself is verified in C27 and below in unit write_out_plain) */
int write_out(int val)
REQ(__CPROVER_w_ok(out_ptr, 1))
ASG(out_ptr, *out_ptr)
ENS(out_ptr == OLD(out_ptr) + 1 && *OLD(out_ptr) == (unsigned char)val);

void write_arg(int value, arg_type type, int inst_size, int or_value)
REQ(type >= ARG_NUM_8 && type <= ARG_RST && inst_size >= 0 && inst_size <= 16)
REQ(out_ptr == &outbuf[2] && gh_err == 0 && gh_warn == 0 && gh_showerr == 0 && gh_showwarn == 0)
ASG(out_ptr, WHOLE(outbuf), gh)
ENS(out_ptr == &outbuf[2] + sp_len(value, type))
ENS(IMP(sp_len(value, type) > 0, outbuf[2] == sp_byte(value, type, program_counter, inst_size, or_value, 0)))
ENS(IMP(sp_len(value, type) > 1, outbuf[3] == sp_byte(value, type, program_counter, inst_size, or_value, 1)))
ENS(IMP(sp_len(value, type) > 2, outbuf[4] == sp_byte(value, type, program_counter, inst_size, or_value, 2)))
ENS(IMP(sp_len(value, type) < 2, outbuf[3] == OLD(outbuf[3])) && IMP(sp_len(value, type) < 3, outbuf[4] == OLD(outbuf[4])))
ENS(sp_diag_ok(value, type, program_counter, inst_size));
#endif

#include "pass_two.cpp"
#ifdef NATIVE
#include "pass_one.cpp"
#endif

DECL_IN(value) DECL_IN(type) DECL_IN(inst_size) DECL_IN(or_value) DECL_IN(mode) DECL_IN(pc)
HARNESS(h_write_arg) {
	int value = IN(value, -2147483648LL, 2147483647LL);
	int type = IN(type, 0, 6);
	int inst_size = IN(inst_size, 0, 16);
	int or_value = IN(or_value, 0, 255);
	mode = IN(mode, 0, 127);
	NATIVE_ONLY(mode &= ~MODE_LIST;)
	program_counter = (unsigned)IN(pc, 0, 4294967295LL);
	gh_reset();
	for (int i = 0; i < NBUF; i++) outbuf[i] = 0xA5;
	out_ptr = &outbuf[2];
	write_arg(value, (arg_type)type, inst_size, or_value);
	int n = sp_len(value, type);
	CHECK(out_ptr == &outbuf[2] + n, "operand has the width its kind prescribes");
	for (int i = 0; i < NBUF; i++)
		if (i < 2 || i >= 2 + n) { CHECK(outbuf[i] == 0xA5, "bytes around the operand are untouched"); }
		else { CHECK(outbuf[i] == sp_byte(value, type, program_counter, inst_size, or_value, i - 2), "operand byte"); }
	CHECK(sp_diag_ok(value, type, program_counter, inst_size), "a diagnostic is raised exactly for operands out of range");
	/* lemma: an accepted relative jump lands on its target */
	if (type == ARG_ADDR_OFFSET && gh_err == 0)
		CHECK((((long)program_counter + inst_size + (signed char)outbuf[2]) & sp_mask()) == ((long)(unsigned)value & sp_mask()), "accepted relative jump lands on the target");
	REACH();
}
