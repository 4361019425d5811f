/* An independent encoder of the Z80 and eZ80 instruction sets, from the architecture's bit fields, used as the specification
 * of the instruction tables.  Sequences: 0..255 = byte, 1000+c = operand placeholder c, 2000+b = byte b with a bit number or'ed in. */
#ifndef OPTAB_H
#define OPTAB_H
typedef unsigned long long W;
typedef struct { int n, v[8]; } seq;
/* a short upper-case word packed into an integer */
#define w_(s, i) (sizeof(s) > (i) + 1 ? (W)(s)[(i) < sizeof(s) ? (i) : 0] << (8 * (i)) : 0)
#define T(s) (w_(s, 0) | w_(s, 1) | w_(s, 2) | w_(s, 3) | w_(s, 4) | w_(s, 5) | w_(s, 6))
static W t_pack(const char *s, int a, int b) { W r = 0; for (int i = a; i < b; i++) r |= (W)(unsigned char)s[i] << (8 * (i - a)); return r; }
static void put(seq *q, int v) { if (q->n < 8) q->v[q->n++] = v; }
/* 8-bit register field: 0..7, prefix in *pfx (0, DD, FD), *disp set for (IX+d)/(IY+d) */
static int f_r8(W o, int *pfx, int *disp) {
	*pfx = *disp = 0;
	if (o == T("B")) return 0; if (o == T("C")) return 1; if (o == T("D")) return 2; if (o == T("E")) return 3;
	if (o == T("H")) return 4; if (o == T("L")) return 5; if (o == T("(HL)")) return 6; if (o == T("A")) return 7;
	if (o == T("IXH")) { *pfx = 0xDD; return 4; } if (o == T("IXL")) { *pfx = 0xDD; return 5; }
	if (o == T("IYH")) { *pfx = 0xFD; return 4; } if (o == T("IYL")) { *pfx = 0xFD; return 5; }
	if (o == T("(IX@)")) { *pfx = 0xDD; *disp = 1; return 6; } if (o == T("(IY@)")) { *pfx = 0xFD; *disp = 1; return 6; }
	return -1;
}
/* 16-bit register field 0..3 with IX/IY standing for HL under a prefix */
static int f_rp(W o, int *pfx) {
	*pfx = 0;
	if (o == T("BC")) return 0; if (o == T("DE")) return 1; if (o == T("HL")) return 2; if (o == T("SP")) return 3;
	if (o == T("IX")) { *pfx = 0xDD; return 2; } if (o == T("IY")) { *pfx = 0xFD; return 2; }
	return -1;
}
static int f_cc(W o) {
	if (o == T("NZ")) return 0; if (o == T("Z")) return 1; if (o == T("NC")) return 2; if (o == T("C")) return 3;
	if (o == T("PO")) return 4; if (o == T("PE")) return 5; if (o == T("P")) return 6; if (o == T("M")) return 7;
	return -1;
}
static int f_alu(W m) {
	if (m == T("ADD")) return 0; if (m == T("ADC")) return 1; if (m == T("SUB")) return 2; if (m == T("SBC")) return 3;
	if (m == T("AND")) return 4; if (m == T("XOR")) return 5; if (m == T("OR")) return 6; if (m == T("CP")) return 7;
	return -1;
}
static int f_rot(W m) {
	if (m == T("RLC")) return 0; if (m == T("RRC")) return 1; if (m == T("RL")) return 2; if (m == T("RR")) return 3;
	if (m == T("SLA")) return 4; if (m == T("SRA")) return 5; if (m == T("SL1") || m == T("SLL")) return 6; if (m == T("SRL")) return 7;
	return -1;
}
static int f_bit(W m) { if (m == T("BIT")) return 1; if (m == T("RES")) return 2; if (m == T("SET")) return 3; return -1; }
static int f_implied(W m, int ez80) { /* instructions without operands; ED-prefixed ones as EDxx */
	if (m == T("NOP")) return 0x00; if (m == T("RLCA")) return 0x07; if (m == T("RRCA")) return 0x0F; if (m == T("RLA")) return 0x17; if (m == T("RRA")) return 0x1F;
	if (m == T("DAA")) return 0x27; if (m == T("CPL")) return 0x2F; if (m == T("SCF")) return 0x37; if (m == T("CCF")) return 0x3F; if (m == T("HALT")) return 0x76;
	if (m == T("RET")) return 0xC9; if (m == T("EXX")) return 0xD9; if (m == T("DI")) return 0xF3; if (m == T("EI")) return 0xFB;
	if (m == T("NEG")) return 0xED44; if (m == T("RETN")) return 0xED45; if (m == T("RETI")) return 0xED4D; if (m == T("RRD")) return 0xED67; if (m == T("RLD")) return 0xED6F;
	if (m == T("LDI")) return 0xEDA0; if (m == T("CPI")) return 0xEDA1; if (m == T("INI")) return 0xEDA2; if (m == T("OUTI")) return 0xEDA3;
	if (m == T("LDD")) return 0xEDA8; if (m == T("CPD")) return 0xEDA9; if (m == T("IND")) return 0xEDAA; if (m == T("OUTD")) return 0xEDAB;
	if (m == T("LDIR")) return 0xEDB0; if (m == T("CPIR")) return 0xEDB1; if (m == T("INIR")) return 0xEDB2; if (m == T("OTIR")) return 0xEDB3;
	if (m == T("LDDR")) return 0xEDB8; if (m == T("CPDR")) return 0xEDB9; if (m == T("INDR")) return 0xEDBA; if (m == T("OTDR")) return 0xEDBB;
	if (!ez80) return -1;
	if (m == T("INIM")) return 0xED82; if (m == T("OTIM")) return 0xED83; if (m == T("INI2")) return 0xED84; if (m == T("INDM")) return 0xED8A; if (m == T("OTDM")) return 0xED8B; if (m == T("IND2")) return 0xED8C;
	if (m == T("INIMR")) return 0xED92; if (m == T("OTIMR")) return 0xED93; if (m == T("INI2R")) return 0xED94; if (m == T("INDMR")) return 0xED9A; if (m == T("OTDMR")) return 0xED9B; if (m == T("IND2R")) return 0xED9C;
	if (m == T("OUTI2")) return 0xEDA4; if (m == T("OUTD2")) return 0xEDAC; if (m == T("OTI2R")) return 0xEDB4; if (m == T("OTD2R")) return 0xEDBC;
	if (m == T("INIRX")) return 0xEDC2; if (m == T("OTIRX")) return 0xEDC3; if (m == T("INDRX")) return 0xEDCA; if (m == T("OTDRX")) return 0xEDCB;
	if (m == T("STMIX")) return 0xED7D; if (m == T("RSMIX")) return 0xED7E; if (m == T("SLP")) return 0xED76;
	return -1;
}
/* opcode op under prefix pfx (0: none) with optional displacement and trailing placeholder */
static void e_op(seq *q, int pfx, int op, int disp, int tail) { if (pfx) put(q, pfx); put(q, op); if (disp) put(q, 1000 + '@'); if (tail) put(q, 1000 + tail); }
/* the encoding of mnemonic m with operands a, b, c (packed; 0 = absent).  alt selects an equivalent second encoding where one exists. */
static void encode(seq *q, W m, W a, W b, W c, int ez80, int alt) {
	int p, d, p2, d2, r, s;
	q->n = 0;
	if (!a) {
		r = f_implied(m, ez80);
		if (r < 0) return;
		if (r > 255) put(q, r >> 8);
		put(q, r & 255);
		return;
	}
	r = f_alu(m);
	if (r >= 0) {
		W x = b ? b : a;
		if (b && a != T("A")) { /* 16-bit arithmetic */
			int ph = f_rp(a, &p), q2 = f_rp(b, &p2);
			if (ph != 2 || q2 < 0 || c) return;
			if (r == 0) { if (q2 == 2 ? p2 != p : p2) return; e_op(q, p, 0x09 + 16 * q2, 0, 0); }
			else if ((r == 1 || r == 3) && !p && !p2) e_op(q, 0xED, (r == 1 ? 0x4A : 0x42) + 16 * q2, 0, 0);
			return;
		}
		if (x == T("&")) { e_op(q, 0, 0xC6 + 8 * r, 0, '&'); return; }
		s = f_r8(x, &p, &d);
		if (s >= 0) e_op(q, p, 0x80 + 8 * r + s, d, 0);
		return;
	}
	r = f_rot(m);
	if (r >= 0) {
		s = f_r8(a, &p, &d);
		if (s < 0) return;
		if (b) { /* undocumented: result also copied to a register */
			s = f_r8(b, &p2, &d2); /* written (IX+d),r or r,(IX+d) */
			if (!d) { int t = f_r8(b, &p, &d); if (!d) return; s = f_r8(a, &p2, &d2); f_r8(b, &p, &d); (void)t; }
			if (s < 0 || p2 || s == 6) return;
		} else if (p && !d) return;
		if (d) { put(q, p); put(q, 0xCB); put(q, 1000 + '@'); put(q, 8 * r + s); }
		else { put(q, 0xCB); put(q, 8 * r + s); }
		return;
	}
	r = f_bit(m);
	if (r >= 0) {
		W reg = 0, x = b;
		if (a != T("^")) { reg = a; x = c; if (b != T("^") || r == 1) return; }
		else if (c) { reg = c; if (r == 1) return; }
		s = f_r8(x, &p, &d);
		if (s < 0 || (p && !d)) return;
		if (reg) { if (!d) return; s = f_r8(reg, &p2, &d2); if (s < 0 || p2 || s == 6) return; }
		if (d) { put(q, p); put(q, 0xCB); put(q, 1000 + '@'); put(q, 2000 + 0x40 * r + s); }
		else { put(q, 0xCB); put(q, 2000 + 0x40 * r + s); }
		return;
	}
	if (m == T("LD")) {
		int i1 = f_r8(a, &p, &d), i2 = f_r8(b, &p2, &d2);
		if (c || !b) return;
		if (i1 >= 0 && i2 >= 0) {
			if (i1 == 6 && i2 == 6) return;
			if (d && p2) return; if (d2 && p) return;
			if (!d && !d2 && p && (i2 == 4 || i2 == 5 || i2 == 6) && p2 != p) return;
			if (!d && !d2 && p2 && (i1 == 4 || i1 == 5 || i1 == 6) && p2 != p) return;
			e_op(q, p ? p : p2, 0x40 + 8 * i1 + i2, d || d2, 0);
			return;
		}
		if (i1 >= 0 && b == T("&")) { e_op(q, p, 0x06 + 8 * i1, d, '&'); return; }
		if (a == T("A")) {
			if (b == T("(BC)")) e_op(q, 0, 0x0A, 0, 0); else if (b == T("(DE)")) e_op(q, 0, 0x1A, 0, 0); else if (b == T("(*)")) e_op(q, 0, 0x3A, 0, '*');
			else if (b == T("I")) e_op(q, 0xED, 0x57, 0, 0); else if (b == T("R")) e_op(q, 0xED, 0x5F, 0, 0); else if (ez80 && b == T("MB")) e_op(q, 0xED, 0x6E, 0, 0);
			return;
		}
		if (b == T("A")) {
			if (a == T("(BC)")) e_op(q, 0, 0x02, 0, 0); else if (a == T("(DE)")) e_op(q, 0, 0x12, 0, 0); else if (a == T("(*)")) e_op(q, 0, 0x32, 0, '*');
			else if (a == T("I")) e_op(q, 0xED, 0x47, 0, 0); else if (a == T("R")) e_op(q, 0xED, 0x4F, 0, 0); else if (ez80 && a == T("MB")) e_op(q, 0xED, 0x6D, 0, 0);
			return;
		}
		if (ez80 && a == T("I") && b == T("HL")) { e_op(q, 0xED, 0xC7, 0, 0); return; }
		if (ez80 && a == T("HL") && b == T("I")) { e_op(q, 0xED, 0xD7, 0, 0); return; }
		int ix1 = p, ix2 = p2; /* index prefixes of the memory operands, if any */
		r = f_rp(a, &p); s = f_rp(b, &p2);
		if (r == 3 && s == 2) { e_op(q, p2, 0xF9, 0, 0); return; }
		if (r >= 0 && b == T("*")) { e_op(q, p, 0x01 + 16 * r, 0, '*'); return; }
		if (r >= 0 && b == T("(*)")) { if (r == 2 && (p || !alt)) e_op(q, p, 0x2A, 0, '*'); else e_op(q, 0xED, 0x4B + 16 * r, 0, '*'); return; }
		if (s >= 0 && a == T("(*)")) { if (s == 2 && (p2 || !alt)) e_op(q, p2, 0x22, 0, '*'); else e_op(q, 0xED, 0x43 + 16 * s, 0, '*'); return; }
		if (ez80 && r >= 0 && r < 3 && (b == T("(HL)") || i2 == 6)) { /* 16/24-bit loads through HL, IX+d, IY+d */
			int pf = i2 == 6 && d2 ? ix2 : 0xED;
			if (!p) e_op(q, pf, 0x07 + 16 * r, d2, 0);
			else if (pf == 0xED) e_op(q, pf, p == 0xDD ? 0x37 : 0x31, 0, 0);
			else e_op(q, pf, p == pf ? 0x37 : 0x31, d2, 0);
			return;
		}
		if (ez80 && s >= 0 && s < 3 && i1 == 6) {
			int pf = d ? ix1 : 0xED;
			if (!p2) e_op(q, pf, 0x0F + 16 * s, d, 0);
			else if (pf == 0xED) e_op(q, pf, p2 == 0xDD ? 0x3F : 0x3E, 0, 0);
			else e_op(q, pf, p2 == pf ? 0x3F : 0x3E, d, 0);
			return;
		}
		return;
	}
	if ((m == T("INC") || m == T("DEC")) && !b) {
		int dec = m == T("DEC");
		s = f_r8(a, &p, &d);
		if (s >= 0) { e_op(q, p, 0x04 + dec + 8 * s, d, 0); return; }
		r = f_rp(a, &p);
		if (r >= 0) e_op(q, p, (dec ? 0x0B : 0x03) + 16 * r, 0, 0);
		return;
	}
	if (m == T("JP")) {
		if (a == T("*") && !b) e_op(q, 0, 0xC3, 0, '*');
		else if (a == T("(HL)") && !b) e_op(q, 0, 0xE9, 0, 0); else if (a == T("(IX)") && !b) e_op(q, 0xDD, 0xE9, 0, 0); else if (a == T("(IY)") && !b) e_op(q, 0xFD, 0xE9, 0, 0);
		else if (f_cc(a) >= 0 && b == T("*") && !c) e_op(q, 0, 0xC2 + 8 * f_cc(a), 0, '*');
		return;
	}
	if (m == T("JR")) { if (a == T("%") && !b) e_op(q, 0, 0x18, 0, '%'); else if (f_cc(a) >= 0 && f_cc(a) < 4 && b == T("%") && !c) e_op(q, 0, 0x20 + 8 * f_cc(a), 0, '%'); return; }
	if (m == T("DJNZ")) { if (a == T("%") && !b) e_op(q, 0, 0x10, 0, '%'); return; }
	if (m == T("CALL")) { if (a == T("*") && !b) e_op(q, 0, 0xCD, 0, '*'); else if (f_cc(a) >= 0 && b == T("*") && !c) e_op(q, 0, 0xC4 + 8 * f_cc(a), 0, '*'); return; }
	if (m == T("RET")) { if (f_cc(a) >= 0 && !b) e_op(q, 0, 0xC0 + 8 * f_cc(a), 0, 0); return; }
	if (m == T("RST")) {
		if (b) return;
		if (a == T("#")) { put(q, 1000 + '#'); return; }
		for (r = 0; r < 8; r++) { /* literal restart addresses 00H, 08H .. 38H */
			W w = (W)('0' + r / 2) | (W)(r & 1 ? '8' : '0') << 8;
			if (a == w || a == (w | (W)'H' << 16)) put(q, 0xC7 + 8 * r);
		}
		return;
	}
	if ((m == T("PUSH") || m == T("POP")) && !b) {
		int op = m == T("PUSH") ? 0xC5 : 0xC1;
		if (a == T("AF")) { e_op(q, 0, op + 0x30, 0, 0); return; }
		r = f_rp(a, &p);
		if (r >= 0 && r < 3) e_op(q, p, op + 16 * r, 0, 0);
		return;
	}
	if (m == T("EX") && b && !c) {
		if (a == T("DE") && b == T("HL")) e_op(q, 0, 0xEB, 0, 0); else if (a == T("AF") && b == T("AF'")) e_op(q, 0, 0x08, 0, 0);
		else if (a == T("(SP)") && f_rp(b, &p) == 2) { f_rp(b, &p); e_op(q, p, 0xE3, 0, 0); }
		return;
	}
	if (m == T("IM") && !b) { if (a == T("0")) e_op(q, 0xED, 0x46, 0, 0); else if (a == T("1")) e_op(q, 0xED, 0x56, 0, 0); else if (a == T("2")) e_op(q, 0xED, 0x5E, 0, 0); return; }
	if (ez80 && m == T("IN") && !b && (a == T("(C)") || a == T("(BC)"))) { e_op(q, 0xED, 0x70, 0, 0); return; }
	if (m == T("IN") && !b && a == T("(C)")) { e_op(q, 0xED, 0x70, 0, 0); return; }
	if (m == T("IN") && b && !c) {
		int port = b == T("(C)") || (ez80 && b == T("(BC)"));
		s = f_r8(a, &p, &d);
		if (a == T("A") && b == T("(&)")) e_op(q, 0, 0xDB, 0, '&');
		else if (s >= 0 && !p && s != 6 && port) e_op(q, 0xED, 0x40 + 8 * s, 0, 0);
		else if (a == T("F") && port) e_op(q, 0xED, 0x70, 0, 0);
		return;
	}
	if (m == T("OUT") && b && !c) {
		int port = a == T("(C)") || (ez80 && a == T("(BC)"));
		s = f_r8(b, &p, &d);
		if (b == T("A") && a == T("(&)")) e_op(q, 0, 0xD3, 0, '&');
		else if (s >= 0 && !p && s != 6 && port) e_op(q, 0xED, 0x41 + 8 * s, 0, 0);
		else if (b == T("0") && port) e_op(q, 0xED, 0x71, 0, 0);
		return;
	}
	if (!ez80) return;
	if (m == T("IN0") && ((a == T("F") && b == T("(&)")) || (a == T("(&)") && !b)) && !c) { e_op(q, 0xED, 0x30, 0, '&'); return; }
	if (m == T("IN0") && b == T("(&)") && !c) { s = f_r8(a, &p, &d); if (s >= 0 && !p && s != 6) e_op(q, 0xED, 0x00 + 8 * s, 0, '&'); return; }
	if (m == T("OUT0") && a == T("(&)") && !c) { s = f_r8(b, &p, &d); if (s >= 0 && !p && s != 6) e_op(q, 0xED, 0x01 + 8 * s, 0, '&'); return; }
	if (m == T("MLT") && !b) { r = f_rp(a, &p); if (r >= 0 && !p) e_op(q, 0xED, 0x4C + 16 * r, 0, 0); return; }
	if (m == T("TST")) { W x = b ? b : a; if (b && a != T("A")) return; if (x == T("&")) { e_op(q, 0xED, 0x64, 0, '&'); return; } s = f_r8(x, &p, &d); if (s >= 0 && !p) e_op(q, 0xED, 0x04 + 8 * s, 0, 0); return; }
	if (m == T("TSTIO") && a == T("&") && !b) { e_op(q, 0xED, 0x74, 0, '&'); return; }
	if (m == T("LEA") && !c) {
		int y = b == T("IY@");
		if (b != T("IX@") && !y) return;
		r = f_rp(a, &p);
		if (r < 0 || r > 2) return;
		if (!p) e_op(q, 0xED, 0x02 + 16 * r + y, 1, 0);
		else if (p == 0xDD) e_op(q, 0xED, y ? 0x54 : 0x32, 1, 0);
		else e_op(q, 0xED, y ? 0x33 : 0x55, 1, 0);
		return;
	}
	if (m == T("PEA") && !b) { if (a == T("IX@")) e_op(q, 0xED, 0x65, 1, 0); else if (a == T("IY@")) e_op(q, 0xED, 0x66, 1, 0); return; }
}
/* what a table row emits (the emission rule is C02's) */
static void row_seq(seq *q, const instr *in) {
	int bit = 0;
	q->n = 0;
	for (int i = 8; i > 0; i--) if (i <= in->instr_size) put(q, in->instr_data[i - 1]);
	for (int i = 0; i < 12 && in->args[i]; i++) {
		char c = in->args[i];
		if (c == '^') bit = 1;
		else if (c == '*' || c == '&' || c == '%' || c == '@' || c == '#') put(q, 1000 + c);
	}
	if (in->has_end_data) put(q, bit ? 2000 + in->end_data : in->end_data);
}
static int seq_eq(const seq *a, const seq *b) {
	if (a->n != b->n) return 0;
	for (int i = 0; i < 8; i++) if (i < a->n && a->v[i] != b->v[i]) return 0;
	return 1;
}
static void split(const char *args, W o[3]) {
	int i = 0, k, st = 0;
	o[0] = o[1] = o[2] = 0;
	for (k = 0; k < 3; k++) {
		int j = i;
		while (j < 12 && args[j] && args[j] != ',') j++;
		o[k] = t_pack(args, i, j);
		if (j >= 12 || !args[j]) return;
		i = j + 1;
	}
}
/* the documented instruction set (an assembler must know every one of these); the rest is undocumented or an alternative spelling */
static int documented(W m, W a, W b, W c, int ez80) {
	int p, d;
	if (c) return 0;
	if (f_rot(m) >= 0) { if (b || m == T("SL1") || m == T("SLL")) return 0; f_r8(a, &p, &d); return !p || d; }
	if (!b && (m == T("ADD") || m == T("ADC") || m == T("SBC") || m == T("TST") || m == T("IN") || m == T("IN0"))) return 0;
	if (m == T("OUT") && b == T("0")) return 0;
	if (m == T("IN") && a == T("F")) return 0;
	if (ez80 && m == T("LD") && a == b && f_r8(a, &p, &d) < 4) return 0; /* these opcodes are the mode suffixes on the eZ80 */
	return 1;
}
/* a row with pattern operand x would also accept the operand y of another row */
static int is_bare(W x) { return x == T("*") || x == T("&") || x == T("%") || x == T("#") || x == T("^"); }
static int covers1(W x, W y) {
	if (x == y || (is_bare(x) && y)) return 1;
	if (x == T("(*)") || x == T("(&)")) { int k = 0; while (k < 7 && (y >> (8 * k)) > 255) k++; return (y & 255) == '(' && (y >> (8 * k)) == ')'; }
	return 0;
}
static int row_ok(const char *name, const instr *in, int ez80) {
	seq want, alt, got; W o[3]; int nl = 0, w = 0;
	while (nl < 7 && name[nl]) nl++;
	W m = t_pack(name, 0, nl);
	split(in->args, o);
	encode(&want, m, o[0], o[1], o[2], ez80, 0);
	encode(&alt, m, o[0], o[1], o[2], ez80, 1);
	row_seq(&got, in);
	if (want.n == 0 || !(seq_eq(&want, &got) || seq_eq(&alt, &got))) return 0;
	/* the size column is the number of bytes emitted (in short mode) */
	for (int i = 0; i < 8; i++) if (i < got.n) w += got.v[i] == 1000 + '*' ? 2 : 1;
	return in->size == w && in->instr_size >= 0 && in->instr_size <= 8;
}
#endif
