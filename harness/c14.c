/* C14 source scanners (utils.cpp): bounds and stop conditions for text of any length. */
#include "base.h"
#include "str.h"
#define CHARS " \t\r\n;\\\"'_a.Z9[(),+-\x80"
/* ghost automaton of skip_to_line_end */
int gq, ge, gdbl; long gi;
long glq; /* ghost: position of the last quote that opened a character literal (next_expr) */
static inline void sp_line_step(void) {
	int c = CH(gi);
	if (c == '\\') { gdbl |= ge; ge = !ge; }
	else { if (c == '"' && !ge) gq = !gq; ge = 0; }
	gi++;
}
#define sp_line_stop(c) ((c) == 0 || (c) == '\n' || (c) == '\r' || ((c) == ';' && !gq))
/* reference position of skip_to_line_end etc., by plain loops (native and bounded configurations only) */
#if defined(NATIVE) || defined(VC_BOUND)
#define FUNCTIONAL 1
static long sp_line_end(long i) { gq = ge = gdbl = 0; gi = i; while (!sp_line_stop(CH(gi))) sp_line_step(); return gi; }
static long sp_next_line(long i) { while (CH(i) && CH(i) != '\n' && CH(i) != '\r') i++; if (CH(i) == '\r') i++; if (CH(i) == '\n') i++; return i; }
static int sp_in(const char *set, int c) { for (int k = 0; set[k]; k++) if ((unsigned char)set[k] == c) return 1; return 0; }
/* an expression ends at a delimiter or an end-of-code character outside "strings", 'c' literals and \escapes */
static long sp_next_expr(long i, const char *delims) {
	while (sp_blank(CH(i))) i++;
	if (sp_eocl(CH(i)) || CH(i) == ')') return i;
	int str = 0;
	while (CH(i)) {
		int c = CH(i);
		if (str) { /* inside a double quoted string */
			if (c == '\\') { i++; if (CH(i)) i++; continue; }
			if (c == '"') str = 0;
			i++; continue;
		}
		if (sp_in(delims, c) || sp_eocl(c)) break;
		if (c == '\\') { i++; if (CH(i)) i++; continue; }
		if (c == '"') { str = 1; i++; continue; }
		if (c == '\'') { /* 'c' or '\c' is skipped as a whole, a lone quote as one character; anything else is not well formed */
			if (!CH(i + 1) || !CH(i + 2)) return -1;
			if (CH(i + 1) == '\\') { if (CH(i + 3) != '\'') return -1; i += 4; continue; }
			if (CH(i + 2) == '\'') { i += 3; continue; }
			if (CH(i + 2) == '"' || CH(i + 2) == '\\') return -1;
			i++; continue;
		}
		i++;
	}
	return i;
}
#endif
#ifndef NATIVE
char *skip_whitespace(const char *ptr)
REQ(IMP(ptr != 0, g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ(ptr, g_s) && OFF(ptr) == g_o))
ASG()
ENS(IMP(ptr == 0, RET == 0))
ENS(IMP(ptr != 0, PTR_OK(RET) && !sp_blank(*RET) && IMP(g_k >= g_o && g_k < OFF(RET), sp_blank(CH(g_k)))));
char *skip_to_name_end(const char *ptr)
REQ(IMP(ptr != 0, g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ(ptr, g_s) && OFF(ptr) == g_o))
ASG()
ENS(IMP(ptr == 0, RET == 0))
ENS(IMP(ptr != 0, PTR_OK(RET) && !sp_name(*RET) && IMP(g_k >= g_o && g_k < OFF(RET), sp_name(CH(g_k)))));
char *skip_to_next_line(const char *ptr)
REQ(IMP(ptr != 0, g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ(ptr, g_s) && OFF(ptr) == g_o))
ASG()
ENS(IMP(ptr == 0, RET == 0))
/* stops just behind the first line break, or at the end of the text */
ENS(IMP(ptr != 0, PTR_OK(RET) && (*RET == 0 || (OFF(RET) > g_o && (RET[-1] == '\n' || (RET[-1] == '\r' && *RET != '\n'))))))
ENS(IMP(ptr != 0 && g_k >= g_o && g_k < OFF(RET) && (CH(g_k) == '\n' || CH(g_k) == '\r' || CH(g_k) == 0),
	CH(g_k) != 0 && (g_k == OFF(RET) - 1 || (g_k == OFF(RET) - 2 && CH(g_k) == '\r' && CH(g_k + 1) == '\n'))));
char *skip_to_line_end(const char *ptr)
REQ(IMP(ptr != 0, g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ(ptr, g_s) && OFF(ptr) == g_o))
REQ(gq == 0 && ge == 0 && gdbl == 0 && gi == g_o)
ASG(gq, ge, gdbl, gi)
ENS(IMP(ptr == 0, RET == 0))
ENS(IMP(ptr != 0, PTR_OK(RET) && IMP(!gdbl, gi == OFF(RET) && sp_line_stop((unsigned char)*RET))))
ENS(IMP(ptr != 0, IMP(g_k >= g_o && g_k < OFF(RET), CH(g_k) != 0 && CH(g_k) != '\n' && CH(g_k) != '\r')));
bool is_end_of_code_line(const char *ptr) ASG() ENS(RET == (ptr != 0 && sp_eocl(*ptr)));
bool is_name_char(char c) ASG() ENS((RET != 0) == sp_name(c));
/* assumed contracts of mystrpbrk (checked bounded in unit pbrk) and strchr: the callers only ask whether the first character is in the set */
int vc_in_set(const char *set, int c) {
	if (!set[0]) return 0; if ((unsigned char)set[0] == c) return 1;
	if (!set[1]) return 0; if ((unsigned char)set[1] == c) return 1;
	if (!set[2]) return 0; if ((unsigned char)set[2] == c) return 1;
	if (!set[3]) return 0; if ((unsigned char)set[3] == c) return 1;
	return 0;
}
char *mystrpbrk(const char *string, const char *control)
REQ(1) ASG() ENS((RET == string) == (*string != 0 && vc_in_set(control, (unsigned char)*string)));
char *strchr(const char *s, int c) { return (*s == (char)c) ? (char *)s : (char *)0; }
static inline size_t vc_strlen4(const char *s) { return !s[0] ? 0 : !s[1] ? 1 : !s[2] ? 2 : !s[3] ? 3 : !s[4] ? 4 : 5; }
#define strlen(s) vc_strlen4(s)
char *next_expr(const char *ptr, const char *delims)
REQ(g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ(ptr, g_s) && OFF(ptr) == g_o)
REQ(__CPROVER_r_ok(delims, 5) && delims[4] == 0 && glq == g_o - 1)
ASG(glq)
ENS(PTR_OK(RET))
ENS(*RET == 0 || sp_eocl(*RET) || *RET == ')' || (delims[0] && ((unsigned char)*RET == (unsigned char)delims[0] || vc_in_set(delims, (unsigned char)*RET))));
char *next_code_line(char *ptr)
REQ(g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ(ptr, g_s) && OFF(ptr) == g_o)
REQ(glq == g_o - 1)
ASG(glq)
ENS(SAMEOBJ(RET, g_s) && OFF(RET) >= OLD(g_o) && OFF(RET) <= g_n);
const char *skip_to_code_line_end(const char *ptr)
REQ(g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ(ptr, g_s) && OFF(ptr) == g_o)
REQ(glq == g_o - 1)
ASG(glq)
ENS(PTR_OK(RET))
ENS(*RET == 0 || OFF(RET) == g_o || !sp_eocl(RET[-1]));
bool line_has_word(char *ptr, const char *word, int word_len)
REQ(1) ASG() ENS(1);
#endif
#include "utils_inc.h"

DECL_IN(o) DECL_IN(isnull) DECL_IN(k) DECL_IN(c)
static char *pick(int may_null) {
	VC_CHARSET(CHARS);
	g_s = IN_STR(0, g_n, 0, 0x7ffffff0);
	g_o = IN(o, 0, g_n);
	g_k = IN(k, 0, 0x7ffffff0);
	if (may_null && IN(isnull, 0, 15) == 0) return 0;
	return g_s + g_o;
}
HARNESS(h_ws) {
	char *p = pick(1), *r = skip_whitespace(p);
#ifdef FUNCTIONAL
	if (!p) { CHECK(r == 0, "NULL in, NULL out"); }
	else { long i = g_o; while (sp_blank(CH(i))) i++; CHECK(r == g_s + i, "first non-blank"); }
#endif
	REACH();
}
HARNESS(h_name) {
	char *p = pick(1), *r = skip_to_name_end(p);
#ifdef FUNCTIONAL
	if (!p) { CHECK(r == 0, "NULL in, NULL out"); }
	else { long i = g_o; while (sp_name(CH(i))) i++; CHECK(r == g_s + i, "first character that cannot be part of a name"); }
#endif
	REACH();
}
HARNESS(h_nextline) {
	char *p = pick(1), *r = skip_to_next_line(p);
#ifdef FUNCTIONAL
	if (!p) { CHECK(r == 0, "NULL in, NULL out"); }
	else { CHECK(r == g_s + sp_next_line(g_o), "start of the next physical line"); }
#endif
	REACH();
}
HARNESS(h_lineend) {
	char *p = pick(1);
	gq = ge = gdbl = 0; gi = g_o;
	char *r = skip_to_line_end(p);
#ifdef FUNCTIONAL
	if (!p) { CHECK(r == 0, "NULL in, NULL out"); }
	else { long e = sp_line_end(g_o); if (!gdbl) CHECK(r == g_s + e, "line break or unquoted comment"); }
#endif
	REACH();
}
HARNESS(h_eocl) {
	int c = IN(c, 0, 255);
	char b[1] = {(char)c};
	CHECK(is_end_of_code_line(b) == sp_eocl(c), "end-of-code characters");
	CHECK(!is_end_of_code_line(0), "NULL is not the end of a line");
	CHECK((is_name_char((char)c) != 0) == sp_name(c), "name characters");
	CHECK(is_arg((char)c) == (c == '*' || c == '&' || c == '%' || c == '@' || c == '^' || c == '#'), "operand placeholders");
	REACH();
}
DECL_IN(d0) DECL_IN(d1) DECL_IN(d2) DECL_IN(d3)
HARNESS(h_next_expr) {
	char *p = pick(0);
	char d[5];
	d[0] = (char)IN(d0, 1, 127); d[1] = (char)IN(d1, 0, 127); d[2] = d[1] ? (char)IN(d2, 0, 127) : 0; d[3] = d[2] ? (char)IN(d3, 0, 127) : 0; d[4] = 0;
	NATIVE_ONLY(for (int i = 0; i < 4; i++) if (d[i]) d[i] = ",)\\;\r\n= "[d[i] & 7];)
	glq = g_o - 1;
	for (int i = 0; i < 4; i++) if (d[i] == '\'' || d[i] == '"') ASSUME(0);
	char *r = next_expr(p, d);
#ifdef FUNCTIONAL
	long e = sp_next_expr(g_o, d);
	if (e >= 0) CHECK(r == g_s + e, "an expression ends at the first delimiter outside strings and literals");
#endif
	REACH();
}
HARNESS(h_next_code_line) {
	char *p = pick(0);
	long o = g_o; glq = g_o - 1;
	char *r = next_code_line(p);
#ifdef FUNCTIONAL
	long e = sp_next_expr(o, "\\;\r\n");
	if (e < 0) return;
	if (CH(e) == ';') e = sp_next_line(e);
	else { if (CH(e) == '\\') e++; if (CH(e) == '\r') e++; if (CH(e) == '\n') e++; }
	CHECK(r == g_s + e, "start of the next statement");
#endif
	REACH();
}
DECL_IN(wl)
HARNESS(h_line_has_word) {
	char *p = pick(0);
	static const char w[] = "#endcomment";
	int n = (int)IN(wl, 1, 11);
	bool r = line_has_word(p, w, n);
#ifdef FUNCTIONAL
	long i = g_o; while (sp_blank(CH(i))) i++;
	int same = 1; for (int k = 0; k < n && same; k++) if (!CH(i + k) || sp_lower(CH(i + k)) != (unsigned char)w[k]) same = 0;
	CHECK(r == (bool)same, "a line has a word iff it starts with it, ignoring case and leading blanks");
#endif
	REACH();
}
HARNESS(h_code_line_end) {
	char *p = pick(0);
	long o = g_o; glq = g_o - 1;
	const char *r = skip_to_code_line_end(p);
#ifdef FUNCTIONAL
	CHECK(r >= g_s + o && r <= g_s + g_n, "not in front of the line nor behind the text");
	CHECK(*r == 0 || r == g_s + o || !sp_eocl(r[-1]), "nothing that ends the code of a line is left at the end");
#endif
	REACH();
}
HARNESS(h_pbrk) {
	char *p = pick(0);
	char d[5];
	d[0] = (char)IN(d0, 1, 127); d[1] = (char)IN(d1, 0, 127); d[2] = d[1] ? (char)IN(d2, 0, 127) : 0; d[3] = d[2] ? (char)IN(d3, 0, 127) : 0; d[4] = 0;
	char *r = mystrpbrk(p, d);
#ifdef FUNCTIONAL
	long i = g_o; while (CH(i) && !sp_in(d, CH(i))) i++;
	CHECK(r == (CH(i) ? g_s + i : 0), "first character of the set");
#endif
	REACH();
}
