/* generated by lib/mkoptab.py from optab.in.h */
/* An independent encoder of the Z80 and eZ80 instruction sets, from the architecture's bit fields, used as the specification
 * of the instruction tables.  Sequences: 0..255 = byte, 1000+c = operand placeholder c, 2000+b = byte b with a bit number or'ed in. */
#ifndef OPTAB_H
#define OPTAB_H
typedef unsigned long long W;
typedef struct { int n, v[8]; } seq;
/* a short upper-case word packed into an integer */
#define w_(s, i) (sizeof(s) > (i) + 1 ? (W)(s)[(i) < sizeof(s) ? (i) : 0] << (8 * (i)) : 0)
#define T(s) (w_(s, 0) | w_(s, 1) | w_(s, 2) | w_(s, 3) | w_(s, 4) | w_(s, 5) | w_(s, 6))
static W t_pack(const char *s, int a, int b) { W r = 0; for (int i = a; i < b; i++) r |= (W)(unsigned char)s[i] << (8 * (i - a)); return r; }
static void put(seq *q, int v) { if (q->n < 8) q->v[q->n++] = v; }
/* 8-bit register field: 0..7, prefix in *pfx (0, DD, FD), *disp set for (IX+d)/(IY+d) */
static int f_r8(W o, int *pfx, int *disp) {
	*pfx = *disp = 0;
	if (o == 0x42ULL) return 0; if (o == 0x43ULL) return 1; if (o == 0x44ULL) return 2; if (o == 0x45ULL) return 3;
	if (o == 0x48ULL) return 4; if (o == 0x4CULL) return 5; if (o == 0x294C4828ULL) return 6; if (o == 0x41ULL) return 7;
	if (o == 0x485849ULL) { *pfx = 0xDD; return 4; } if (o == 0x4C5849ULL) { *pfx = 0xDD; return 5; }
	if (o == 0x485949ULL) { *pfx = 0xFD; return 4; } if (o == 0x4C5949ULL) { *pfx = 0xFD; return 5; }
	if (o == 0x2940584928ULL) { *pfx = 0xDD; *disp = 1; return 6; } if (o == 0x2940594928ULL) { *pfx = 0xFD; *disp = 1; return 6; }
	return -1;
}
/* 16-bit register field 0..3 with IX/IY standing for HL under a prefix */
static int f_rp(W o, int *pfx) {
	*pfx = 0;
	if (o == 0x4342ULL) return 0; if (o == 0x4544ULL) return 1; if (o == 0x4C48ULL) return 2; if (o == 0x5053ULL) return 3;
	if (o == 0x5849ULL) { *pfx = 0xDD; return 2; } if (o == 0x5949ULL) { *pfx = 0xFD; return 2; }
	return -1;
}
static int f_cc(W o) {
	if (o == 0x5A4EULL) return 0; if (o == 0x5AULL) return 1; if (o == 0x434EULL) return 2; if (o == 0x43ULL) return 3;
	if (o == 0x4F50ULL) return 4; if (o == 0x4550ULL) return 5; if (o == 0x50ULL) return 6; if (o == 0x4DULL) return 7;
	return -1;
}
static int f_alu(W m) {
	if (m == 0x444441ULL) return 0; if (m == 0x434441ULL) return 1; if (m == 0x425553ULL) return 2; if (m == 0x434253ULL) return 3;
	if (m == 0x444E41ULL) return 4; if (m == 0x524F58ULL) return 5; if (m == 0x524FULL) return 6; if (m == 0x5043ULL) return 7;
	return -1;
}
static int f_rot(W m) {
	if (m == 0x434C52ULL) return 0; if (m == 0x435252ULL) return 1; if (m == 0x4C52ULL) return 2; if (m == 0x5252ULL) return 3;
	if (m == 0x414C53ULL) return 4; if (m == 0x415253ULL) return 5; if (m == 0x314C53ULL || m == 0x4C4C53ULL) return 6; if (m == 0x4C5253ULL) return 7;
	return -1;
}
static int f_bit(W m) { if (m == 0x544942ULL) return 1; if (m == 0x534552ULL) return 2; if (m == 0x544553ULL) return 3; return -1; }
static int f_implied(W m, int ez80) { /* instructions without operands; ED-prefixed ones as EDxx */
	if (m == 0x504F4EULL) return 0x00; if (m == 0x41434C52ULL) return 0x07; if (m == 0x41435252ULL) return 0x0F; if (m == 0x414C52ULL) return 0x17; if (m == 0x415252ULL) return 0x1F;
	if (m == 0x414144ULL) return 0x27; if (m == 0x4C5043ULL) return 0x2F; if (m == 0x464353ULL) return 0x37; if (m == 0x464343ULL) return 0x3F; if (m == 0x544C4148ULL) return 0x76;
	if (m == 0x544552ULL) return 0xC9; if (m == 0x585845ULL) return 0xD9; if (m == 0x4944ULL) return 0xF3; if (m == 0x4945ULL) return 0xFB;
	if (m == 0x47454EULL) return 0xED44; if (m == 0x4E544552ULL) return 0xED45; if (m == 0x49544552ULL) return 0xED4D; if (m == 0x445252ULL) return 0xED67; if (m == 0x444C52ULL) return 0xED6F;
	if (m == 0x49444CULL) return 0xEDA0; if (m == 0x495043ULL) return 0xEDA1; if (m == 0x494E49ULL) return 0xEDA2; if (m == 0x4954554FULL) return 0xEDA3;
	if (m == 0x44444CULL) return 0xEDA8; if (m == 0x445043ULL) return 0xEDA9; if (m == 0x444E49ULL) return 0xEDAA; if (m == 0x4454554FULL) return 0xEDAB;
	if (m == 0x5249444CULL) return 0xEDB0; if (m == 0x52495043ULL) return 0xEDB1; if (m == 0x52494E49ULL) return 0xEDB2; if (m == 0x5249544FULL) return 0xEDB3;
	if (m == 0x5244444CULL) return 0xEDB8; if (m == 0x52445043ULL) return 0xEDB9; if (m == 0x52444E49ULL) return 0xEDBA; if (m == 0x5244544FULL) return 0xEDBB;
	if (!ez80) return -1;
	if (m == 0x4D494E49ULL) return 0xED82; if (m == 0x4D49544FULL) return 0xED83; if (m == 0x32494E49ULL) return 0xED84; if (m == 0x4D444E49ULL) return 0xED8A; if (m == 0x4D44544FULL) return 0xED8B; if (m == 0x32444E49ULL) return 0xED8C;
	if (m == 0x524D494E49ULL) return 0xED92; if (m == 0x524D49544FULL) return 0xED93; if (m == 0x5232494E49ULL) return 0xED94; if (m == 0x524D444E49ULL) return 0xED9A; if (m == 0x524D44544FULL) return 0xED9B; if (m == 0x5232444E49ULL) return 0xED9C;
	if (m == 0x324954554FULL) return 0xEDA4; if (m == 0x324454554FULL) return 0xEDAC; if (m == 0x523249544FULL) return 0xEDB4; if (m == 0x523244544FULL) return 0xEDBC;
	if (m == 0x5852494E49ULL) return 0xEDC2; if (m == 0x585249544FULL) return 0xEDC3; if (m == 0x5852444E49ULL) return 0xEDCA; if (m == 0x585244544FULL) return 0xEDCB;
	if (m == 0x58494D5453ULL) return 0xED7D; if (m == 0x58494D5352ULL) return 0xED7E; if (m == 0x504C53ULL) return 0xED76;
	return -1;
}
/* opcode op under prefix pfx (0: none) with optional displacement and trailing placeholder */
static void e_op(seq *q, int pfx, int op, int disp, int tail) { if (pfx) put(q, pfx); put(q, op); if (disp) put(q, 1000 + '@'); if (tail) put(q, 1000 + tail); }
/* the encoding of mnemonic m with operands a, b, c (packed; 0 = absent).  alt selects an equivalent second encoding where one exists. */
static void encode(seq *q, W m, W a, W b, W c, int ez80, int alt) {
	int p, d, p2, d2, r, s;
	q->n = 0;
	if (!a) {
		r = f_implied(m, ez80);
		if (r < 0) return;
		if (r > 255) put(q, r >> 8);
		put(q, r & 255);
		return;
	}
	r = f_alu(m);
	if (r >= 0) {
		W x = b ? b : a;
		if (b && a != 0x41ULL) { /* 16-bit arithmetic */
			int ph = f_rp(a, &p), q2 = f_rp(b, &p2);
			if (ph != 2 || q2 < 0 || c) return;
			if (r == 0) { if (q2 == 2 ? p2 != p : p2) return; e_op(q, p, 0x09 + 16 * q2, 0, 0); }
			else if ((r == 1 || r == 3) && !p && !p2) e_op(q, 0xED, (r == 1 ? 0x4A : 0x42) + 16 * q2, 0, 0);
			return;
		}
		if (x == 0x26ULL) { e_op(q, 0, 0xC6 + 8 * r, 0, '&'); return; }
		s = f_r8(x, &p, &d);
		if (s >= 0) e_op(q, p, 0x80 + 8 * r + s, d, 0);
		return;
	}
	r = f_rot(m);
	if (r >= 0) {
		s = f_r8(a, &p, &d);
		if (s < 0) return;
		if (b) { /* undocumented: result also copied to a register */
			s = f_r8(b, &p2, &d2); /* written (IX+d),r or r,(IX+d) */
			if (!d) { int t = f_r8(b, &p, &d); if (!d) return; s = f_r8(a, &p2, &d2); f_r8(b, &p, &d); (void)t; }
			if (s < 0 || p2 || s == 6) return;
		} else if (p && !d) return;
		if (d) { put(q, p); put(q, 0xCB); put(q, 1000 + '@'); put(q, 8 * r + s); }
		else { put(q, 0xCB); put(q, 8 * r + s); }
		return;
	}
	r = f_bit(m);
	if (r >= 0) {
		W reg = 0, x = b;
		if (a != 0x5EULL) { reg = a; x = c; if (b != 0x5EULL || r == 1) return; }
		else if (c) { reg = c; if (r == 1) return; }
		s = f_r8(x, &p, &d);
		if (s < 0 || (p && !d)) return;
		if (reg) { if (!d) return; s = f_r8(reg, &p2, &d2); if (s < 0 || p2 || s == 6) return; }
		if (d) { put(q, p); put(q, 0xCB); put(q, 1000 + '@'); put(q, 2000 + 0x40 * r + s); }
		else { put(q, 0xCB); put(q, 2000 + 0x40 * r + s); }
		return;
	}
	if (m == 0x444CULL) {
		int i1 = f_r8(a, &p, &d), i2 = f_r8(b, &p2, &d2);
		if (c || !b) return;
		if (i1 >= 0 && i2 >= 0) {
			if (i1 == 6 && i2 == 6) return;
			if (d && p2) return; if (d2 && p) return;
			if (!d && !d2 && p && (i2 == 4 || i2 == 5 || i2 == 6) && p2 != p) return;
			if (!d && !d2 && p2 && (i1 == 4 || i1 == 5 || i1 == 6) && p2 != p) return;
			e_op(q, p ? p : p2, 0x40 + 8 * i1 + i2, d || d2, 0);
			return;
		}
		if (i1 >= 0 && b == 0x26ULL) { e_op(q, p, 0x06 + 8 * i1, d, '&'); return; }
		if (a == 0x41ULL) {
			if (b == 0x29434228ULL) e_op(q, 0, 0x0A, 0, 0); else if (b == 0x29454428ULL) e_op(q, 0, 0x1A, 0, 0); else if (b == 0x292A28ULL) e_op(q, 0, 0x3A, 0, '*');
			else if (b == 0x49ULL) e_op(q, 0xED, 0x57, 0, 0); else if (b == 0x52ULL) e_op(q, 0xED, 0x5F, 0, 0); else if (ez80 && b == 0x424DULL) e_op(q, 0xED, 0x6E, 0, 0);
			return;
		}
		if (b == 0x41ULL) {
			if (a == 0x29434228ULL) e_op(q, 0, 0x02, 0, 0); else if (a == 0x29454428ULL) e_op(q, 0, 0x12, 0, 0); else if (a == 0x292A28ULL) e_op(q, 0, 0x32, 0, '*');
			else if (a == 0x49ULL) e_op(q, 0xED, 0x47, 0, 0); else if (a == 0x52ULL) e_op(q, 0xED, 0x4F, 0, 0); else if (ez80 && a == 0x424DULL) e_op(q, 0xED, 0x6D, 0, 0);
			return;
		}
		if (ez80 && a == 0x49ULL && b == 0x4C48ULL) { e_op(q, 0xED, 0xC7, 0, 0); return; }
		if (ez80 && a == 0x4C48ULL && b == 0x49ULL) { e_op(q, 0xED, 0xD7, 0, 0); return; }
		int ix1 = p, ix2 = p2; /* index prefixes of the memory operands, if any */
		r = f_rp(a, &p); s = f_rp(b, &p2);
		if (r == 3 && s == 2) { e_op(q, p2, 0xF9, 0, 0); return; }
		if (r >= 0 && b == 0x2AULL) { e_op(q, p, 0x01 + 16 * r, 0, '*'); return; }
		if (r >= 0 && b == 0x292A28ULL) { if (r == 2 && (p || !alt)) e_op(q, p, 0x2A, 0, '*'); else e_op(q, 0xED, 0x4B + 16 * r, 0, '*'); return; }
		if (s >= 0 && a == 0x292A28ULL) { if (s == 2 && (p2 || !alt)) e_op(q, p2, 0x22, 0, '*'); else e_op(q, 0xED, 0x43 + 16 * s, 0, '*'); return; }
		if (ez80 && r >= 0 && r < 3 && (b == 0x294C4828ULL || i2 == 6)) { /* 16/24-bit loads through HL, IX+d, IY+d */
			int pf = i2 == 6 && d2 ? ix2 : 0xED;
			if (!p) e_op(q, pf, 0x07 + 16 * r, d2, 0);
			else if (pf == 0xED) e_op(q, pf, p == 0xDD ? 0x37 : 0x31, 0, 0);
			else e_op(q, pf, p == pf ? 0x37 : 0x31, d2, 0);
			return;
		}
		if (ez80 && s >= 0 && s < 3 && i1 == 6) {
			int pf = d ? ix1 : 0xED;
			if (!p2) e_op(q, pf, 0x0F + 16 * s, d, 0);
			else if (pf == 0xED) e_op(q, pf, p2 == 0xDD ? 0x3F : 0x3E, 0, 0);
			else e_op(q, pf, p2 == pf ? 0x3F : 0x3E, d, 0);
			return;
		}
		return;
	}
	if ((m == 0x434E49ULL || m == 0x434544ULL) && !b) {
		int dec = m == 0x434544ULL;
		s = f_r8(a, &p, &d);
		if (s >= 0) { e_op(q, p, 0x04 + dec + 8 * s, d, 0); return; }
		r = f_rp(a, &p);
		if (r >= 0) e_op(q, p, (dec ? 0x0B : 0x03) + 16 * r, 0, 0);
		return;
	}
	if (m == 0x504AULL) {
		if (a == 0x2AULL && !b) e_op(q, 0, 0xC3, 0, '*');
		else if (a == 0x294C4828ULL && !b) e_op(q, 0, 0xE9, 0, 0); else if (a == 0x29584928ULL && !b) e_op(q, 0xDD, 0xE9, 0, 0); else if (a == 0x29594928ULL && !b) e_op(q, 0xFD, 0xE9, 0, 0);
		else if (f_cc(a) >= 0 && b == 0x2AULL && !c) e_op(q, 0, 0xC2 + 8 * f_cc(a), 0, '*');
		return;
	}
	if (m == 0x524AULL) { if (a == 0x25ULL && !b) e_op(q, 0, 0x18, 0, '%'); else if (f_cc(a) >= 0 && f_cc(a) < 4 && b == 0x25ULL && !c) e_op(q, 0, 0x20 + 8 * f_cc(a), 0, '%'); return; }
	if (m == 0x5A4E4A44ULL) { if (a == 0x25ULL && !b) e_op(q, 0, 0x10, 0, '%'); return; }
	if (m == 0x4C4C4143ULL) { if (a == 0x2AULL && !b) e_op(q, 0, 0xCD, 0, '*'); else if (f_cc(a) >= 0 && b == 0x2AULL && !c) e_op(q, 0, 0xC4 + 8 * f_cc(a), 0, '*'); return; }
	if (m == 0x544552ULL) { if (f_cc(a) >= 0 && !b) e_op(q, 0, 0xC0 + 8 * f_cc(a), 0, 0); return; }
	if (m == 0x545352ULL) {
		if (b) return;
		if (a == 0x23ULL) { put(q, 1000 + '#'); return; }
		for (r = 0; r < 8; r++) { /* literal restart addresses 00H, 08H .. 38H */
			W w = (W)('0' + r / 2) | (W)(r & 1 ? '8' : '0') << 8;
			if (a == w || a == (w | (W)'H' << 16)) put(q, 0xC7 + 8 * r);
		}
		return;
	}
	if ((m == 0x48535550ULL || m == 0x504F50ULL) && !b) {
		int op = m == 0x48535550ULL ? 0xC5 : 0xC1;
		if (a == 0x4641ULL) { e_op(q, 0, op + 0x30, 0, 0); return; }
		r = f_rp(a, &p);
		if (r >= 0 && r < 3) e_op(q, p, op + 16 * r, 0, 0);
		return;
	}
	if (m == 0x5845ULL && b && !c) {
		if (a == 0x4544ULL && b == 0x4C48ULL) e_op(q, 0, 0xEB, 0, 0); else if (a == 0x4641ULL && b == 0x274641ULL) e_op(q, 0, 0x08, 0, 0);
		else if (a == 0x29505328ULL && f_rp(b, &p) == 2) { f_rp(b, &p); e_op(q, p, 0xE3, 0, 0); }
		return;
	}
	if (m == 0x4D49ULL && !b) { if (a == 0x30ULL) e_op(q, 0xED, 0x46, 0, 0); else if (a == 0x31ULL) e_op(q, 0xED, 0x56, 0, 0); else if (a == 0x32ULL) e_op(q, 0xED, 0x5E, 0, 0); return; }
	if (ez80 && m == 0x4E49ULL && !b && (a == 0x294328ULL || a == 0x29434228ULL)) { e_op(q, 0xED, 0x70, 0, 0); return; }
	if (m == 0x4E49ULL && !b && a == 0x294328ULL) { e_op(q, 0xED, 0x70, 0, 0); return; }
	if (m == 0x4E49ULL && b && !c) {
		int port = b == 0x294328ULL || (ez80 && b == 0x29434228ULL);
		s = f_r8(a, &p, &d);
		if (a == 0x41ULL && b == 0x292628ULL) e_op(q, 0, 0xDB, 0, '&');
		else if (s >= 0 && !p && s != 6 && port) e_op(q, 0xED, 0x40 + 8 * s, 0, 0);
		else if (a == 0x46ULL && port) e_op(q, 0xED, 0x70, 0, 0);
		return;
	}
	if (m == 0x54554FULL && b && !c) {
		int port = a == 0x294328ULL || (ez80 && a == 0x29434228ULL);
		s = f_r8(b, &p, &d);
		if (b == 0x41ULL && a == 0x292628ULL) e_op(q, 0, 0xD3, 0, '&');
		else if (s >= 0 && !p && s != 6 && port) e_op(q, 0xED, 0x41 + 8 * s, 0, 0);
		else if (b == 0x30ULL && port) e_op(q, 0xED, 0x71, 0, 0);
		return;
	}
	if (!ez80) return;
	if (m == 0x304E49ULL && ((a == 0x46ULL && b == 0x292628ULL) || (a == 0x292628ULL && !b)) && !c) { e_op(q, 0xED, 0x30, 0, '&'); return; }
	if (m == 0x304E49ULL && b == 0x292628ULL && !c) { s = f_r8(a, &p, &d); if (s >= 0 && !p && s != 6) e_op(q, 0xED, 0x00 + 8 * s, 0, '&'); return; }
	if (m == 0x3054554FULL && a == 0x292628ULL && !c) { s = f_r8(b, &p, &d); if (s >= 0 && !p && s != 6) e_op(q, 0xED, 0x01 + 8 * s, 0, '&'); return; }
	if (m == 0x544C4DULL && !b) { r = f_rp(a, &p); if (r >= 0 && !p) e_op(q, 0xED, 0x4C + 16 * r, 0, 0); return; }
	if (m == 0x545354ULL) { W x = b ? b : a; if (b && a != 0x41ULL) return; if (x == 0x26ULL) { e_op(q, 0xED, 0x64, 0, '&'); return; } s = f_r8(x, &p, &d); if (s >= 0 && !p) e_op(q, 0xED, 0x04 + 8 * s, 0, 0); return; }
	if (m == 0x4F49545354ULL && a == 0x26ULL && !b) { e_op(q, 0xED, 0x74, 0, '&'); return; }
	if (m == 0x41454CULL && !c) {
		int y = b == 0x405949ULL;
		if (b != 0x405849ULL && !y) return;
		r = f_rp(a, &p);
		if (r < 0 || r > 2) return;
		if (!p) e_op(q, 0xED, 0x02 + 16 * r + y, 1, 0);
		else if (p == 0xDD) e_op(q, 0xED, y ? 0x54 : 0x32, 1, 0);
		else e_op(q, 0xED, y ? 0x33 : 0x55, 1, 0);
		return;
	}
	if (m == 0x414550ULL && !b) { if (a == 0x405849ULL) e_op(q, 0xED, 0x65, 1, 0); else if (a == 0x405949ULL) e_op(q, 0xED, 0x66, 1, 0); return; }
}
/* what a table row emits (the emission rule is C02's) */
static void row_seq(seq *q, const instr *in) {
	int bit = 0;
	q->n = 0;
	for (int i = 8; i > 0; i--) if (i <= in->instr_size) put(q, in->instr_data[i - 1]);
	for (int i = 0; i < 12 && in->args[i]; i++) {
		char c = in->args[i];
		if (c == '^') bit = 1;
		else if (c == '*' || c == '&' || c == '%' || c == '@' || c == '#') put(q, 1000 + c);
	}
	if (in->has_end_data) put(q, bit ? 2000 + in->end_data : in->end_data);
}
static int seq_eq(const seq *a, const seq *b) {
	if (a->n != b->n) return 0;
	for (int i = 0; i < 8; i++) if (i < a->n && a->v[i] != b->v[i]) return 0;
	return 1;
}
static void split(const char *args, W o[3]) {
	int i = 0, k, st = 0;
	o[0] = o[1] = o[2] = 0;
	for (k = 0; k < 3; k++) {
		int j = i;
		while (j < 12 && args[j] && args[j] != ',') j++;
		o[k] = t_pack(args, i, j);
		if (j >= 12 || !args[j]) return;
		i = j + 1;
	}
}
/* the documented instruction set (an assembler must know every one of these); the rest is undocumented or an alternative spelling */
static int documented(W m, W a, W b, W c, int ez80) {
	int p, d;
	if (c) return 0;
	if (f_rot(m) >= 0) { if (b || m == 0x314C53ULL || m == 0x4C4C53ULL) return 0; f_r8(a, &p, &d); return !p || d; }
	if (!b && (m == 0x444441ULL || m == 0x434441ULL || m == 0x434253ULL || m == 0x545354ULL || m == 0x4E49ULL || m == 0x304E49ULL)) return 0;
	if (m == 0x54554FULL && b == 0x30ULL) return 0;
	if (m == 0x4E49ULL && a == 0x46ULL) return 0;
	if (ez80 && m == 0x444CULL && a == b && f_r8(a, &p, &d) < 4) return 0; /* these opcodes are the mode suffixes on the eZ80 */
	return 1;
}
/* a row with pattern operand x would also accept the operand y of another row */
static int is_bare(W x) { return x == 0x2AULL || x == 0x26ULL || x == 0x25ULL || x == 0x23ULL || x == 0x5EULL; }
static int covers1(W x, W y) {
	if (x == y || (is_bare(x) && y)) return 1;
	if (x == 0x292A28ULL || x == 0x292628ULL) { int k = 0; while (k < 7 && (y >> (8 * k)) > 255) k++; return (y & 255) == '(' && (y >> (8 * k)) == ')'; }
	return 0;
}
static int row_ok(const char *name, const instr *in, int ez80) {
	seq want, alt, got; W o[3]; int nl = 0, w = 0;
	while (nl < 7 && name[nl]) nl++;
	W m = t_pack(name, 0, nl);
	split(in->args, o);
	encode(&want, m, o[0], o[1], o[2], ez80, 0);
	encode(&alt, m, o[0], o[1], o[2], ez80, 1);
	row_seq(&got, in);
	if (want.n == 0 || !(seq_eq(&want, &got) || seq_eq(&alt, &got))) return 0;
	/* the size column is the number of bytes emitted (in short mode) */
	for (int i = 0; i < 8; i++) if (i < got.n) w += got.v[i] == 1000 + '*' ? 2 : 1;
	return in->size == w && in->instr_size >= 0 && in->instr_size <= 8;
}
#endif
