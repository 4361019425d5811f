/* C29 the output position stays inside the output: write_out, .seek, .org, .fill. */
#ifndef NATIVE
/* proved for every output size, of which the project's is one (a constant size makes the solver's arrays huge) */
#define output_buf_size output_buf_size_actual
#include "base.h"
#undef output_buf_size
unsigned int vc_obs;
#define output_buf_size vc_obs
#define OBUF ((long)vc_obs)
#else
#include "base.h"
#define OBUF 8000000L
#endif
#include "str.h"
DECL_IN(off) DECL_IN(val) DECL_IN(k) DECL_IN(list) DECL_IN(p1) DECL_IN(eo) DECL_IN(pc) DECL_IN(ok) DECL_IN(lw) DECL_IN(lo) DECL_IN(have) DECL_IN(val2) DECL_IN(have2)
static unsigned char k0, *out0; long off0;
unsigned st0, dd0;
static void out_setup(void) {
	CBMC_ONLY(CHECK(output_buf_size_actual == 8000000, "the output has 8,000,000 bytes"); vc_obs = nondet_vc_ll(); ASSUME(vc_obs >= 1 && vc_obs <= 1000000000);)
	long off = (long)IN(off, 0, OBUF);
	NATIVE_ONLY(static unsigned char *o = 0; if (!o) o = (unsigned char *)malloc(OBUF); output_contents = o;)
	CBMC_ONLY(output_contents = (unsigned char *)malloc(vc_obs); ASSUME(output_contents != 0);)
	out0 = output_contents; off0 = off; out_ptr = output_contents + off;
	g_k = (long)IN(k, 0, OBUF - 1); NATIVE_ONLY(if (g_k & 1) g_k = off > 2 ? off - 2 : 0;)
	k0 = output_contents[g_k];
	error_occurred = IN(eo, 0, 1) != 0; pass_one = IN(p1, 0, 1) != 0; program_counter = (unsigned)IN(pc, 0, 4294967295LL);
	gh_reset();
}
#ifdef VC_WRITE
/* ---- write_out ---- */
/* contracts of the expandable buffer (C17): the listing is recorded as a count of bytes and the last hex text */
int g_nl, g_hex, g_ow; char g_t[4]; long g_lo, g_min, g_at;
#ifndef NATIVE
int vc_eb_insert(expand_buf *b, int off, const char *t, size_t n) {
	CHECK(b == listing_buf && off == (int)listing_offset && pass_one, "listing text is inserted at the listing position on the first pass");
	if (n == 3) { g_hex++; g_t[0] = t[0]; g_t[1] = t[1]; g_t[2] = t[2]; return off + 3; }
	CHECK(n == (size_t)-1 && t[0] == '\n' && t[1] == ' ' && t[14] == ' ' && t[15] == 0, "a new row of the listing is indented");
	CHECK(g_hex == 0, "a new row starts before its byte"); g_nl++;
	return off + 15;
}
void vc_eb_overwrite(expand_buf *b, int off, const char *t, size_t n) {
	CHECK(b == listing_buf && n == 3 && !pass_one, "bytes fill in the listing on the second pass");
	g_ow++; g_at = off; g_t[0] = t[0]; g_t[1] = t[1]; g_t[2] = t[2];
}
char vc_eb_get(expand_buf *b, int off) { CHECK(b == listing_buf && off >= 0 && off <= g_n, "listing position"); return g_s[off]; }
char vc_hexd(int d) { return d < 10 ? '0' + d : 'A' + d - 10; }
int vc_sprintf_(char *t, const char *f, int v, ...) {
	CHECK(f[0] == '%' && f[1] == '0' && f[2] == '2' && f[3] == 'X' && f[4] == ' ' && f[5] == 0 && v >= 0 && v <= 255, "two hexadecimal digits");
	t[0] = vc_hexd(v >> 4); t[1] = vc_hexd(v & 15); t[2] = ' '; t[3] = 0; return 3;
}
#define eb_insert vc_eb_insert
#define eb_overwrite vc_eb_overwrite
#define eb_get_char vc_eb_get
#define sprintf vc_sprintf_
#else
#include "expand_buf.cpp"
#endif
#include "pass_one.cpp"
HARNESS(h_write) {
	out_setup();
	int val = (int)IN(val, -2147483648LL, 2147483647LL), list = (int)IN(list, 0, 3), lw = (int)IN(lw, 0, 4);
	mode = list & 1 ? MODE_LIST : MODE_NORMAL; listing_on = (list & 2) != 0; listing_width = lw;
	int listed = list == 3, eo = error_occurred;
#ifndef NATIVE
	expand_buf b; listing_buf = &b;
	/* the listing made on the first pass; it never ends in blanks */
	g_s = IN_STR(0, g_n, 0, 1000000); ASSUME(g_s[g_n] == 0); g_lo = (long)IN(lo, 0, 1000000); ASSUME(g_lo <= g_n);
	listing_offset = g_lo; long lo = g_min = g_lo; int brk = !pass_one && (g_s[g_lo] == '\n' || g_s[g_lo] == '\r');
	g_nl = g_hex = g_ow = 0;
#ifndef VC_BOUND
	if (!pass_one && brk) { g_lo = nondet_vc_ll(); ASSUME(g_lo >= lo && g_lo <= g_n && !sp_space(g_s[g_lo])); } /* the next row's place */
#else
	if (brk) while (sp_space(g_s[g_lo])) g_lo++;
#endif
#else
	static expand_buf b; if (!b.start) { b.start = (unsigned char *)malloc(4096); b.size = 4096; }
	listing_buf = &b; g_lo = 20; memset(b.start, '.', 300); b.end = b.start + (pass_one ? 20 : 300); listing_offset = 20;
	int brk = !pass_one && (lw & 1); if (brk) { memcpy(b.start + 20, "\n              ", 15); }
#endif
	int r = write_out(val);
	CBMC_ONLY(if (g_ow) ASSUME(IMP(g_at >= lo && g_at < g_lo, sp_space(g_s[g_at])));) /* instance of: g_lo is the first place that is not blank */
	CHECK(r == val, "the value is returned");
	CHECK(output_contents == out0 && IMP(g_k != off0 || off0 >= OBUF, output_contents[g_k] == k0), "no other byte of the output changes");
	if (off0 < OBUF) CHECK(out_ptr == out0 + off0 + 1 && output_contents[off0] == (unsigned char)(val & 0xff) && gh_showerr == 0, "the byte is written at the output position, which advances");
	else CHECK(out_ptr == out0 + off0 && gh_showerr == !eo && error_occurred, "beyond the output's end nothing is written and the assembly has failed");
#ifndef NATIVE
	if (listed) {
		CHECK(g_t[0] == vc_hexd((val >> 4) & 15) && g_t[1] == vc_hexd(val & 15) && g_t[2] == ' ', "the listing shows the byte");
		if (pass_one) CHECK(g_hex == 1 && g_ow == 0 && g_nl == (lw >= 4) && listing_width == (lw >= 4 ? 1 : lw + 1) && (long)listing_offset == g_lo + 3 + 15 * (lw >= 4), "four bytes to a row");
		else CHECK(g_ow == 1 && g_at == g_lo && g_hex == 0 && g_nl == 0 && (long)listing_offset == g_lo + 3 && IMP(!brk, g_lo == lo), "bytes fill in the row, or the next one at its end");
	} else CHECK(g_hex == 0 && g_ow == 0 && g_nl == 0 && (long)listing_offset == lo, "no listing");
#else
	char want[64]; sprintf(want, "%s%02X ", pass_one && lw >= 4 ? "\n              " : "", val & 255);
	if (listed && pass_one) CHECK((long)listing_offset == 20 + (long)strlen(want) && !memcmp(b.start + 20, want, strlen(want)) && listing_width == (lw >= 4 ? 1 : lw + 1), "four bytes to a row");
	if (listed && !pass_one) CHECK((long)listing_offset == 23 + 15 * brk && !memcmp(b.start + 20 + 15 * brk, want, 3), "bytes fill in the row, or the next one at its end");
	if (!listed) CHECK(listing_offset == 20, "no listing");
#endif
	REACH();
}
#else
/* ---- the directives ---- */
int g_ok, g_v1, g_v2, g_have1, g_have2, g_reads, g_parses; long g_wr; int g_wv; long g_wmax;
char *vc_ws(const char *p) { if (*p == ' ') p++; return (char *)p; } /* the harness's texts have single blanks */
/* contract of read_expr_impl (C15): whether there is an expression, and its text (named 1 or 2 here) */
bool vc_read(const char ** const ptr, char word[256], const char *d) {
	g_reads++;
	int have = g_reads == 1 ? g_have1 : g_have2;
	if (word) { word[0] = have ? '0' + g_reads : 0; word[1] = 0; }
	if (**ptr == ' ') (*ptr)++;
	if (have) (*ptr)++;
	return have;
}
/* contract of parse_num_now (C07): a value, or 0 and an error */
bool vc_num(const char *e, int *v) {
	CHECK(e[1] == 0, "the expression read is evaluated");
	g_parses++;
	if (e[0] == '1') { *v = g_ok ? g_v1 : 0; if (!g_ok) gh_err++; return g_ok; }
	if (e[0] == '2') { *v = g_v2; return 1; }
	*v = 0; gh_err++; return 0;
}
int vc_write_out(int v) {
	g_wv = v; if (g_wr < g_wmax) g_wr++; else error_occurred = 1; /* contract of write_out: beyond the end the assembly has failed */
	return v;
}
#define skip_whitespace vc_ws
#define read_expr_impl vc_read
#define parse_num_now vc_num
#define write_out vc_write_out
#ifdef NATIVE
#define printf(...) 0
#endif
#include "directive.cpp"
#ifdef NATIVE
#undef printf
#endif
static void dir_setup(void) {
	out_setup(); error_occurred = 0;
	g_ok = (int)IN(ok, 0, 1); g_have1 = (int)IN(have, 0, 1); g_have2 = (int)IN(have2, 0, 1);
	g_v1 = (int)IN(val, -2147483648LL, 2147483647LL); g_v2 = (int)IN(val2, -2147483648LL, 2147483647LL);
	g_reads = g_parses = 0; g_wr = 0; g_wv = 0; mode = MODE_NORMAL;
}
HARNESS(h_seek) {
	dir_setup(); unsigned pc = program_counter;
	char *r = handle_directive("SeeK 1");
	long long to = off0 + (long long)g_v1 - (int)pc;
	int ok = g_have1 && g_ok;
	CHECK(output_contents == out0 && output_contents[g_k] == k0, "seeking writes nothing");
	CHECK(out_ptr >= output_contents && out_ptr <= output_contents + OBUF, "the output position stays inside the output");
	if (ok && to >= 0 && to <= OBUF) CHECK(out_ptr == out0 + to && program_counter == (unsigned)g_v1 && gh_showerr == 0 && gh_err == 0, "the output position follows the address");
	else CHECK(out_ptr == out0 + off0 && program_counter == pc && (ok ? gh_showerr == 1 && error_occurred : gh_err == 1), "a location outside the output, or none, is an error");
	CHECK(r != 0, "assembly goes on behind it");
	REACH();
}
HARNESS(h_org) {
	dir_setup(); unsigned pc = program_counter;
	char *r = handle_directive("org 1");
	int ok = g_have1 && g_ok && g_v1 >= 0;
	CHECK(program_counter == (ok ? (unsigned)g_v1 : pc) && (gh_err != 0) == !ok, "the address is set, or it is an error");
	CHECK(out_ptr == out0 + off0 && r != 0 && output_contents[g_k] == k0, "the output position stays");
	REACH();
}
static void fill_check(const char *text) {
	dir_setup(); unsigned pc = program_counter;
	g_wmax = (long)IN(lo, 0, OBUF); stats_datasize = 7;
#ifdef VC_SMALL
	ASSUME(g_v1 <= VC_SMALL);
#endif
#ifdef NATIVE
	if (g_v1 > 100000) g_v1 %= 100000;
#endif
	long size = g_have1 && g_ok ? g_v1 : 0, fill = g_have2 ? g_v2 : 0;
	char *r = handle_directive(text);
	if (size < 0) CHECK(g_wr == 0 && gh_err == 1 && program_counter == pc && stats_datasize == 7, "a negative size is an error");
	else {
		CHECK(g_wr == (size < g_wmax ? size : g_wmax), "as many bytes as the size says, as long as there is room");
		CHECK(IMP(g_wr > 0, g_wv == (fill & 0xff)), "all of them the low byte of the fill value");
		CHECK(program_counter == pc + (unsigned)size && stats_datasize == 7 + (unsigned)size, "the address advances by the size");
		CHECK((gh_warn != 0) == (fill < -128 || fill > 255) && (gh_err != 0) == !(g_have1 && g_ok), "a fill value that is no byte is warned about");
	}
	CHECK((error_occurred != 0) == (size > g_wmax), "the assembly fails exactly when there is no room");
	CHECK(r != 0, "assembly goes on behind it");
	REACH();
}
HARNESS(h_fill) { fill_check("fill 1,2"); }
HARNESS(h_block) { fill_check("BLOCK 1,2"); }
#endif
