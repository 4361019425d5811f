/* C17 expandable buffers (expand_buf.cpp). */
#include "base.h"
#define BMAX 1000000L
DECL_IN(used) DECL_IN(size) DECL_IN(off) DECL_IN(len) DECL_IN(w)
#ifndef NATIVE
/* Contracts of the C library's block functions.  Only the bytes at the final position g_w and at its origin g_w - g_len are
 * followed (g_w is arbitrary, so this speaks about every byte); the accesses are checked over their whole range. */
long g_w, g_len; int g_moves;
void *vc_realloc(void *p, size_t n) {
	CHECK(__CPROVER_POINTER_OFFSET(p) == 0, "realloc of the buffer");
	char *q = (char *)malloc(n), *o = (char *)p; size_t os = __CPROVER_OBJECT_SIZE(p); ASSUME(q != 0);
	if ((size_t)g_w < n && (size_t)g_w < os) q[g_w] = o[g_w];
	if (g_w >= g_len && (size_t)(g_w - g_len) < n && (size_t)(g_w - g_len) < os) q[g_w - g_len] = o[g_w - g_len];
	free(p);
	return q;
}
void *vc_memmove(void *d, const void *s, size_t n) {
	CHECK(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "memmove stays inside the buffer");
	long o = OFF(d); char v = 0;
	if (g_w >= o && g_w < o + (long)n) { v = ((const char *)s)[g_w - o]; ((char *)d)[g_w - o] = v; }
	return d;
}
/* (the text holds no zero byte before its end: strncpy then copies n characters) */
char *vc_strncpy(char *d, const char *s, size_t n) {
	CHECK(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "the copied text fits");
	long o = OFF(d);
	if (g_w >= o && g_w < o + (long)n) d[g_w - o] = s[g_w - o];
	return d;
}
size_t g_slen; char *g_text;
size_t vc_strlen(const char *s) { CHECK(s == g_text, "length of the text"); return g_slen; }
char *g_dup; char *vc_strndup(const char *s, size_t n) { CHECK(__CPROVER_r_ok(s, n), "extract"); g_slen = n; g_dup = (char *)s; return g_dup; }
#define realloc vc_realloc
#define memmove vc_memmove
#define strncpy vc_strncpy
#define strlen vc_strlen
#define strndup vc_strndup
#define memcpy vc_memmove
#else
static long g_w, g_len;
#endif
#include "expand_buf.cpp"
static expand_buf b; static long used, off, len, pos; static char *text; static unsigned char *copy;
static void make(void) {
#ifndef NATIVE
	used = (long)IN(used, 0, BMAX); long size = (long)IN(size, 0, 2 * BMAX); ASSUME(used <= size);
	len = (long)IN(len, 0, BMAX);
#ifdef VC_BOUND
	ASSUME(size <= VC_BOUND && len <= VC_BOUND);
#endif
	text = (char *)malloc(len + 1); ASSUME(text != 0); g_text = text; g_slen = len; g_len = len;
#else
	used = (long)IN(used, 0, 300); long size = used + (long)IN(size, 0, 300);
	text = IN_STR(0, len, 0, 300); for (long i = 0; i < len; i++) ASSUME(text[i]);
#endif
	b.start = (unsigned char *)malloc(size); ASSUME(b.start != 0); b.end = b.start + used; b.size = size;
#ifndef NATIVE
	off = (long)IN(off, -1, BMAX); ASSUME(off <= used);
#else
	off = (long)IN(off, -1, 300); if (off > used) off %= used + 1;
#endif
	pos = off < 0 ? used : off;
	g_w = (long)IN(w, 0, 3 * BMAX);
#ifdef NATIVE
	copy = (unsigned char *)malloc(used + 1); for (long i = 0; i < used; i++) copy[i] = b.start[i] = (unsigned char)(i % 251 + 1); g_w = used + len ? g_w % (used + len) : 0;
#endif
}
HARNESS(h_insert) {
	make(); ASSUME(g_w < used + len);
	long org = g_w < pos ? g_w : g_w >= pos + len ? g_w - len : -1;
	unsigned char want = org >= 0 ? b.start[org] : (unsigned char)text[g_w - pos];
	int r = eb_insert(&b, (int)off, text, (size_t)len);
	CHECK(b.end == b.start + used + len && b.size >= (size_t)(used + len), "the length grows by the text's");
	CBMC_ONLY(CHECK(__CPROVER_r_ok(b.start, used + len), "the buffer holds its text");)
	CHECK(b.start[g_w] == want, "the text is inserted at the position, everything else is kept in order");
	CHECK(r == (int)(pos + len), "the position after the text is returned");
	REACH();
}
HARNESS(h_insert_len) { /* length -1: the text's own length */
	make(); ASSUME(g_w < used + len);
	long org = g_w < pos ? g_w : g_w >= pos + len ? g_w - len : -1;
	unsigned char want = org >= 0 ? b.start[org] : (unsigned char)text[g_w - pos];
	int r = off < 0 ? eb_append(&b, text, -1) : eb_insert(&b, (int)off, text, -1);
	CHECK(b.end == b.start + used + len && b.size >= (size_t)(used + len) && r == (int)(pos + len), "the length grows by the text's");
	CHECK(b.start[g_w] == want, "the text is inserted at the position, everything else is kept in order");
	REACH();
}
HARNESS(h_empty) { /* nothing to insert */
	make(); ASSUME(len == 0);
	CHECK(eb_insert(&b, (int)off, text, 0) == (int)pos && b.end == b.start + used, "empty text changes nothing");
	CHECK(eb_insert(&b, (int)off, NULL, 5) == (int)off && b.end == b.start + used, "no text changes nothing");
	REACH();
}
HARNESS(h_rest) {
	make();
#ifdef NATIVE
	if (used) { pos %= used; len %= used - pos; g_w %= used; }
#endif
	ASSUME(pos + len <= used && g_w < used);
	unsigned char want = g_w >= pos && g_w < pos + len ? (unsigned char)text[g_w - pos] : b.start[g_w];
	eb_overwrite(&b, (int)pos, text, (size_t)len);
	CHECK(b.start[g_w] == want && b.end == b.start + used, "only the overwritten range changes");
	CHECK(eb_get_char(&b, (int)g_w) == (char)want, "character at a position");
#ifndef NATIVE
	g_dup = 0;
	char *x = eb_extract(&b);
	CHECK(x == (char *)b.start && (long)g_slen == used, "the extracted string is the buffer's text");
#else
	char *x = eb_extract(&b);
	CHECK(x[g_w] == (char)want || strlen(x) < (size_t)g_w, "the extracted string is the buffer's text");
#endif
	expand_buf *e = eb_init(used);
	CHECK(e->start == e->end && e->size == (size_t)used, "a new buffer is empty");
	eb_free(e);
	REACH();
}
