/* C07 expressions: parse_num_full evaluates operand, operator, operand ... strictly from left to right. */
#include "base.h"
#include "str.h"
#include <limits.h>
/* the specification of an operator: symbol -> function on 32-bit two's complement numbers; code 0 = none */
enum { O_NONE, O_SHL, O_SHR, O_AND, O_OR, O_LE, O_GE, O_EQ, O_NE, O_LT, O_GT, O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_XOR, O_BAND, O_BOR };
static int sp_op(char a, char b, int *len) {
	*len = 2;
	if (a == '<' && b == '<') return O_SHL;
	if (a == '>' && b == '>') return O_SHR;
	if (a == '&' && b == '&') return O_AND;
	if (a == '|' && b == '|') return O_OR;
	if (a == '<' && b == '=') return O_LE;
	if (a == '>' && b == '=') return O_GE;
	if (a == '=' && b == '=') return O_EQ;
	if (a == '!' && b == '=') return O_NE;
	*len = 1;
	switch (a) {
	case '=': return O_EQ; case '<': return O_LT; case '>': return O_GT; case '+': return O_ADD; case '-': return O_SUB; case '*': return O_MUL;
	case '/': return O_DIV; case '%': return O_MOD; case '^': return O_XOR; case '&': return O_BAND; case '|': return O_BOR;
	}
	*len = 0;
	return O_NONE;
}
static int sp_undefined(int op, int a, int b) { return (op == O_DIV || op == O_MOD) && (b == 0 || (a == INT_MIN && b == -1)); }
static int sp_fn(int op, int a, int b) {
	switch (op) {
	case O_SHL: return (int)((unsigned)a << (b & 31)); case O_SHR: return a >> (b & 31);
	case O_AND: return a != 0 && b != 0; case O_OR: return a != 0 || b != 0;
	case O_LE: return a <= b; case O_GE: return a >= b; case O_EQ: return a == b; case O_NE: return a != b; case O_LT: return a < b; case O_GT: return a > b;
	case O_ADD: return (int)((unsigned)a + (unsigned)b); case O_SUB: return (int)((unsigned)a - (unsigned)b); case O_MUL: return (int)((unsigned)a * (unsigned)b);
	case O_DIV: return a / b; case O_MOD: return a % b; case O_XOR: return a ^ b; case O_BAND: return a & b; case O_BOR: return a | b;
	}
	return b;
}
#ifndef NATIVE
#ifdef VC_OPSEL
#define VC_OPS ASSUME(g.op == O_NONE || (VC_OPSEL));
#else
#define VC_OPS
#endif
long __CPROVER_uninterpreted_ws(long);
long __CPROVER_uninterpreted_ne(long);
/* contracts of the scanners (proved in C14), as functions of the position in the text */
static long WS(long o) { long r = __CPROVER_uninterpreted_ws(o); __CPROVER_assume(r >= o && r <= g_n && !sp_blank(CH(r)) && (sp_blank(CH(o)) ? r > o : r == o)); return r; }
static long NE(long o) { long r = __CPROVER_uninterpreted_ne(o); __CPROVER_assume(r >= o && r <= g_n && (r > o) == (sp_name(CH(o)) != 0) && (r == o + 1) == (sp_name(CH(o)) && !sp_name(CH(o + 1)))); return r; }
char *skip_whitespace(const char *p) { CHECK(PTR_OK(p), "scan starts inside the text"); return g_s + WS(OFF(p)); }
char *skip_to_name_end(const char *p) { CHECK(PTR_OK(p), "scan starts inside the text"); return g_s + NE(OFF(p)); }
bool is_end_of_code_line(const char *p) { CHECK(PTR_OK(p), "scan starts inside the text"); return sp_eocl(*p); }
/* the operator texts have one or two characters */
size_t vc_strlen(const char *s) { CHECK(s[0] && (!s[1] || !s[2]), "operator text"); return s[1] ? 2 : 1; }
int vc_strncmp(const char *a, const char *b, size_t n) { CHECK(n == 1 || n == 2, "operator length"); return a[0] != b[0] || (n == 2 && a[0] && a[1] != b[1]); }
#define strlen vc_strlen
#define strncmp vc_strncmp
/* ghost automaton */
struct { long pos, at, end; int acc, op, neg, inv, paren, done, fail, err, miss, depth; } g;
static void sp_operand(const char *expr, int total) {
	CHECK(PTR_OK(expr) && OFF(expr) == g.pos, "the next operand is read from where the last operator ended");
	CHECK(total == g.acc, "running value");
	g.acc = total;
	long o = g.pos; char c = CH(o);
	g.neg = g.inv = 0;
	if (c == '~') { g.inv = 1; o = WS(o + 1); }
	else if ((c == '-' || c == '+') && CH(o + 1) != c && !(CH(o + 1) == '_' && NE(o + 1) == o + 2)) { g.neg = c == '-'; o = WS(o + 1); }
	g.at = o; g.paren = CH(o) == '(';
}
static void sp_apply(int v, long r) {
	int len;
	if (g.inv) v = ~v;
	if (g.neg) v = (int)(0u - (unsigned)v);
	if (sp_undefined(g.op, g.acc, v)) { g.err = 1; return; }
	VC_OPS
	ASSUME(IMP(g.op == O_SHL || g.op == O_SHR, v >= 0 && v < 32));
	g.acc = sp_fn(g.op, g.acc, v);
	long o = WS(r);
	ASSUME(IMP(g.depth == 0, CH(o) != ')')); /* no surplus closing parenthesis */
	if (sp_eocl(CH(o))) { g.done = 1; g.end = o; g.miss = g.depth > 0; return; }
	g.op = sp_op(CH(o), CH(o + 1), &len);
	if (!g.op) { if (CH(o) == ')') { g.done = 1; g.end = WS(o + 1); } else g.err = 1; return; }
	g.pos = WS(o + len);
	if (CH(g.pos) == 0) g.err = 1;
}
static const char *operand(const char *expr, int *value) {
	long r = nondet_vc_ll(); int v = (int)nondet_vc_ll();
	if (nondet_vc_char()) { g.fail = 1; return 0; }
	__CPROVER_assume(r > OFF(expr) && r <= g_n);
	*value = v; sp_apply(v, r);
	return g_s + r;
}
static const char *parse_single_num(const char *expr, int *value) {
	CHECK(PTR_OK(expr) && OFF(expr) == g.at && !g.paren, "a plain operand is read after its sign");
	if (OFF(expr) >= g_n) { g.fail = 1; return 0; } /* contract: the end of the text is not a number */
	return operand(expr, value);
}
static const char *vc_rec_parse_num_full(const char *expr, int *value, int depth) {
	CHECK(PTR_OK(expr) && OFF(expr) == g.at + 1 && g.paren && depth == g.depth + 1, "a parenthesised operand is evaluated one level down");
	if (OFF(expr) >= g_n) { g.fail = 1; return 0; } /* contract: an empty expression fails */
	return operand(expr, value);
}
#define MOP(o) (o == M_LSHIFT ? O_SHL : o == M_RSHIFT ? O_SHR : o == M_AND ? O_AND : o == M_OR ? O_OR : o == M_LTE ? O_LE : o == M_GTE ? O_GE : o == M_EQUALS ? O_EQ : o == M_NOTEQUALS ? O_NE : o == M_LT ? O_LT : o == M_GT ? O_GT : o == M_ADD ? O_ADD : o == M_SUB ? O_SUB : o == M_MUL ? O_MUL : o == M_DIV ? O_DIV : o == M_MOD ? O_MOD : o == M_XOR ? O_XOR : o == M_LAND ? O_BAND : o == M_LOR ? O_BOR : O_NONE)
#endif
#include "parser.cpp"
DECL_IN(depth)
#ifndef NATIVE
HARNESS(h_expr) {
	int value = 0; long n;
	g_s = IN_STR(0, n, 0, 1000000); g_n = n; g_o = 0;
	int depth = (int)IN(depth, 0, 1000);
	parse_depth = 0; gh_reset(); int old = parse_depth;
	g.depth = depth; g.done = g.fail = g.err = g.miss = g.op = 0; g.acc = 0; g.pos = WS(0);
	if (CH(g.pos) == 0) g.err = 1;
	const char *r = parse_num_full(g_s, &value, depth);
	CHECK((r == 0) == (g.fail || g.err), "evaluation fails exactly when an operand fails, an operator or operand is missing or a division is undefined");
	CHECK((int)gh_err == (g.err && !g.fail), "one error for a missing operand or operator or an undefined division, none otherwise");
	if (r) {
		CHECK(g.done && PTR_OK(r) && OFF(r) == g.end, "evaluation stops at the end of the expression");
		CHECK(value == g.acc, "the value is the left-to-right value");
		CHECK(parse_depth == old, "the recursion depth is restored");
		CHECK((int)gh_showwarn == g.miss, "a missing closing parenthesis is warned about");
	}
	REACH();
}
#else
/* reference evaluator over decimal numbers (recursive descent, independent of the code); st: 0 ok, 1 malformed, 2 outside the reference */
static const char *rp; static int rst; static int rlev;
static void rws() { while (*rp == ' ') rp++; }
static int reval(int depth) {
	int acc = 0, op = O_NONE;
	if (++rlev > 20) { rst = 2; return 0; }
	rws(); if (!*rp) { rst = 1; return 0; }
	for (;;) {
		int neg = 0, inv = 0, v;
		if (*rp == '~') { inv = 1; rp++; rws(); } else if ((*rp == '-' || *rp == '+') && rp[1] != *rp) { neg = *rp == '-'; rp++; rws(); }
		if (*rp == '(') { rp++; v = reval(depth + 1); if (rst) return 0; }
		else if (*rp >= '0' && *rp <= '9') {
			long long x = 0; int n = 0;
			while (*rp >= '0' && *rp <= '9') { x = x * 10 + (*rp++ - '0'); if (++n > 12) { rst = 2; return 0; } }
			if (x > 0xFFFFFFFFLL) { rst = 1; return 0; }
			if ((*rp >= 'a' && *rp <= 'z') || (*rp >= 'A' && *rp <= 'Z')) { rst = 2; return 0; }
			v = (int)(unsigned)x;
		} else { rst = (*rp == '+' || *rp == '-' || *rp == '%') ? 2 : 1; return 0; }
		if (inv) v = ~v;
		if (neg) v = (int)(0u - (unsigned)v);
		if (sp_undefined(op, acc, v)) { rst = 1; return 0; }
		if ((op == O_SHL || op == O_SHR) && (v < 0 || v > 31)) { rst = 2; return 0; }
		acc = sp_fn(op, acc, v);
		rws();
		if (!*rp) { return acc; }
		int len; op = sp_op(rp[0], rp[1], &len);
		if (!op) { if (*rp == ')') { if (depth == 0) { rst = 2; return 0; } rp++; rws(); rlev--; return acc; } rst = 1; return 0; }
		rp += len; rws();
		if (!*rp) { rst = 1; return 0; }
	}
}
int get_curr_reusable() { return 0; } int get_num_reusables() { return 0; } unsigned search_reusables(int i) { return 0; }
define_t *search_local_defines(const char *n) { return 0; } define_t *search_defines(const char *n) { return 0; } label_t *search_labels(const char *n) { return 0; }
static inline bool nm(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
char *skip_whitespace(const char *p) { while (*p == ' ' || *p == 9) p++; return (char *)p; }
char *skip_to_name_end(const char *p) { while (nm(*p)) p++; return (char *)p; }
bool is_end_of_code_line(const char *p) { return *p == 0 || *p == 10 || *p == 13 || *p == ';' || *p == '\\'; }
int rand_() { return 0; }
HARNESS(h_expr) {
	static const char *sets[4] = {"123+-*/() 7", "12<>=!&|^%+- 0", "0123456789*/%+-<<>>   ", "9(4)~-+2<=>=&&||* 31"};
	long n; VC_CHARSET(sets[IN(cs, 0, 3)]);
	char *s = IN_STR(0, n, 0, 300); int v = 77;
	for (long i = 0; i < n; i++) ASSUME(s[i] != ';' && s[i] != '\\' && s[i] != 10 && s[i] != 13 && s[i] != 9 && !isalpha((unsigned char)s[i]) && !strchr("_$'.@", s[i]));
	rp = s; rst = 0; rlev = 0; gh_reset();
	int want = reval(0);
	ASSUME(rst != 2);
	bool ok = parse_num(s, &v);
	CHECK(ok == (rst == 0), "evaluation succeeds exactly on well-formed expressions with defined divisions");
	CHECK(v == (rst ? 0 : want), "the value is the left-to-right value");
	CHECK((gh_err != 0) == (rst != 0), "a failed evaluation is reported");
}
#endif
