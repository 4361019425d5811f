/* C03/C04 the built-in instruction tables against an independent encoder (optab.h). */
#include "base.h"
#ifndef NATIVE
#define __MAIN_C
#endif
#ifdef VC_EZ80
#include "opcodes_ez80.cpp"
#define TABLE opcode_list_ez80
#else
#include "opcodes.cpp"
#define TABLE opcode_list
#endif
#include "optab.h"
#ifdef VC_EZ80
#define EZ 1
#else
#define EZ 0
#endif
#define NTAB (sizeof(TABLE) / sizeof(TABLE[0]))
/* every row encodes the instruction its mnemonic and operands name */
static void one_opcode(opcode *o) {
	for (int i = 0; i < o->num_instrs; i++) CHECK(row_ok(o->name, &o->instrs[i], EZ), "bytes, operand fields and size of the row are those of the architecture");
}
#ifndef VC_LO
#define VC_LO 0
#define VC_HI NTAB
#endif
DECL_IN(k)
HARNESS(h_rows) {
	CBMC_ONLY(for (int k = VC_LO; k < VC_HI && k < NTAB; k++) if (TABLE[k].name) one_opcode(&TABLE[k]);)
	NATIVE_ONLY(int k = (int)IN(k, 0, NTAB - 1); if (TABLE[k].name) { one_opcode(&TABLE[k]); })
	REACH();
}
/* the search list: every entry is reached, its row count is the table's, names are unique */
HARNESS(h_list) {
	int n = 0, named = 0;
	for (opcode *o = TABLE; o && o->name; o = o->next) {
		CHECK(o == &TABLE[n], "the search list runs through the table in order");
		CHECK(o->num_instrs > 0 && o->use_count == 0 && !o->is_added, "entry is usable");
		n++;
		if (n > (int)NTAB) break;
	}
	for (int k = 0; k < (int)NTAB; k++) if (TABLE[k].name) named++;
	CHECK(n == named, "every mnemonic of the table is on the search list");
	REACH();
}
/* no row is shadowed by an earlier, more general row of another encoding (rows are tried in order) */
static void one_order(opcode *o) {
	static W op[260][3]; static int num[260];
	CHECK(o->num_instrs <= 260, "rows fit the specification's arrays");
	for (int i = 0; i < o->num_instrs; i++) { num[i] = 0; split(o->instrs[i].args, op[i]); for (int k = 0; k < 3; k++) if (is_bare(op[i][k]) || op[i][k] == T("(*)") || op[i][k] == T("(&)")) num[i] = 1; }
	for (int i = 0; i < o->num_instrs; i++) if (num[i])
		for (int j = i + 1; j < o->num_instrs; j++)
			if (covers1(op[i][0], op[j][0]) && covers1(op[i][1], op[j][1]) && covers1(op[i][2], op[j][2]))
				CHECK((op[i][0] == op[j][0] && op[i][1] == op[j][1] && op[i][2] == op[j][2]), "a row with a number operand does not hide a later row");
}
HARNESS(h_order) {
	CBMC_ONLY(for (int k = VC_LO; k < VC_HI && k < NTAB; k++) if (TABLE[k].name) one_order(&TABLE[k]);)
	NATIVE_ONLY(int k = (int)IN(k, 0, NTAB - 1); if (TABLE[k].name) { one_order(&TABLE[k]); })
	REACH();
}
/* completeness: every machine instruction of the documented instruction set can be written (one row emits it).
 * The bit sets are the opcode pages no prefix, CB, ED, DD, FD, DD CB, FD CB of the architecture manual (computed once from encode()
 * over every mnemonic and operand); CB-page bit instructions are represented by bit 0, the restarts by C7. */
#ifdef VC_EZ80
static const W need[7][4] = {{0xffffffffffffffffULL, 0xfffffffff7fbfdfeULL, 0xffffffffffffffffULL, 0x5f7f5f7f5f7f77ffULL}, {0xff00ffffffffffffULL, 0xffULL, 0xffULL, 0xffULL}, {0xd39f939f939f939fULL, 0x7f5cf7f7dfffbfffULL, 0x1f1f1f1f1c1c1c1cULL, 0x800c8cULL}, {0xc2f2fefe82808280ULL, 0x70bfffff70707070ULL, 0x7070707070707070ULL, 0x200022a00000000ULL}, {0xc2f2fefe82808280ULL, 0x70bfffff70707070ULL, 0x7070707070707070ULL, 0x200022a00000000ULL}, {0x4000404040404040ULL, 0x40ULL, 0x40ULL, 0x40ULL}, {0x4000404040404040ULL, 0x40ULL, 0x40ULL, 0x40ULL}};
#else
static const W need[7][4] = {{0xffffffffffffffffULL, 0xffffffffffffffffULL, 0xffffffffffffffffULL, 0x5f7f5f7f5f7f77ffULL}, {0xff00ffffffffffffULL, 0xffULL, 0xffULL, 0xffULL}, {0x0ULL, 0xf0c8787cfcfafffULL, 0xf0f0f0f00000000ULL, 0x0ULL}, {0x2707e7e02000200ULL, 0x70bfffff70707070ULL, 0x7070707070707070ULL, 0x200022a00000000ULL}, {0x2707e7e02000200ULL, 0x70bfffff70707070ULL, 0x7070707070707070ULL, 0x200022a00000000ULL}, {0x4000404040404040ULL, 0x40ULL, 0x40ULL, 0x40ULL}, {0x4000404040404040ULL, 0x40ULL, 0x40ULL, 0x40ULL}};
#endif
static W have[7][4];
static void one_cover(opcode *o) {
	int nl = 0;
	while (nl < 7 && o->name[nl]) nl++;
	W m = t_pack(o->name, 0, nl);
	for (int i = 0; i < o->num_instrs; i++) {
		seq q; W p[3]; int t = 0, k = 0, b;
		row_seq(&q, &o->instrs[i]); split(o->instrs[i].args, p);
		if (!documented(m, p[0], p[1], p[2], EZ)) continue;
		if (q.v[0] == 1000 + '#') b = 0xC7;
		else {
			if (q.v[0] == 0xCB) { t = 1; k = 1; } else if (q.v[0] == 0xED) { t = 2; k = 1; } else if (q.v[0] == 0xDD || q.v[0] == 0xFD) { t = q.v[0] == 0xDD ? 3 : 4; k = 1; if (q.v[1] == 0xCB) { t += 2; k = 3; } }
			b = q.v[k] >= 2000 ? q.v[k] - 2000 : q.v[k] & 255;
		}
		have[t][b / 64] |= (W)1 << (b % 64);
	}
}
HARNESS(h_cover) {
	for (int t = 0; t < 7; t++) for (int k = 0; k < 4; k++) have[t][k] = 0;
	for (int k = 0; k < (int)NTAB; k++) if (TABLE[k].name) one_cover(&TABLE[k]);
	for (int t = 0; t < 7; t++) for (int k = 0; k < 4; k++) CHECK((have[t][k] & need[t][k]) == need[t][k], "every documented machine instruction has a row");
	REACH();
}
/* all mnemonics and operand forms, on the real table (native search only): a documented form has a row */
