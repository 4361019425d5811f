/* C21 Intel HEX: intelhex. */
#ifdef NATIVE
#include <string>
#endif
#include "base.h"
#include "str.h"
#ifdef NATIVE
#include "export.cpp"
static int hexb(const std::string &s, size_t i) { auto d = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -100000; }; return i + 1 < s.size() ? d(s[i]) * 16 + d(s[i + 1]) : -1; }
extern "C" void h_hex(void) {
	long k = vc_in("kind", 0, 300), size = k == 137 ? vc_in("big", 4190000, 4300000) : k > 100 && k < 120 ? vc_in("mid", 16300, 16500) : k > 120 && k < 126 ? vc_in("two", 32700, 33000) : vc_in("small", 0, 200); unsigned seed = (unsigned)vc_in("seed", 0, 1 << 30), base = (unsigned)vc_in("base", 0, 3) * 0x4000;
	std::string b(size + 1, 0); for (long i = 0; i < size; i++) b[i] = (char)((seed = seed * 1103515245u + 12345u) >> 20);
	FILE *f = tmpfile(); intelhex(f, (const unsigned char *)b.data(), (int)size, base); long n = ftell(f); rewind(f); std::string t(n, 0); if (n) n = fread(&t[0], 1, n, f); fclose(f);
	long at = 0, addr = -1, page = -1; int end = 0; size_t p = 0;
	while (p < t.size()) {
		size_t e = t.find("\r\n", p); std::string l = t.substr(p, (e == std::string::npos ? t.size() : e) - p); p = e == std::string::npos ? t.size() : e + 2;
		CHECK(l[0] == ':' && l.size() % 2 == 1 && !end, "records"); int len = hexb(l, 1), ad = hexb(l, 3) * 256 + hexb(l, 5), ty = hexb(l, 7), sum = 0; CHECK((long)l.size() == 11 + 2 * len, "the record's length"); for (size_t i = 1; i < l.size(); i += 2) sum += hexb(l, i);
		CHECK((sum & 255) == 0, "the record's checksum");
		if (ty == 1) { CHECK(len == 0 && ad == 0, "end"); end = 1; }
		else if (ty == 2) { CHECK(len == 2 && ad == 0 && hexb(l, 9) * 256 + hexb(l, 11) == page + 1, "pages count up"); page++; addr = base; CHECK(at == page * 16384, "a page begins every 16 KB"); }
		else { CHECK(ty == 0 && len > 0 && ad == addr && addr + len <= base + 16384, "data follows data"); for (int i = 0; i < len; i++) { CHECK(at < size && hexb(l, 9 + 2 * i) == (unsigned char)b[at], "every byte, in order"); at++; } addr += len; }
	}
	CHECK(end && at == size, "all is written");
}
#else
const unsigned char *g_buf; int g_size, g_page, g_ended; long g_at, g_rec; unsigned g_base; unsigned char g_sum; int g_w;
#define HEXD(v) ((v) < 10 ? '0' + (v) : 'A' + (v) - 10)
#define LEN (g_size - g_at < 32 ? g_size - g_at : 32)
#define R4(m, i) m(i) m(i + 1) m(i + 2) m(i + 3)
#define R16(m, i) R4(m, i) R4(m, i + 4) R4(m, i + 8) R4(m, i + 12)
#define SAME(i) if (a[i] != b[i]) return 0; if (!a[i]) return 1;
int vc_same(const char *a, const char *b) { R16(SAME, 0) R4(SAME, 16) R4(SAME, 20) return 0; }
void vc_page(const char *f, int page, unsigned chk) {
	CHECK(vc_same(f, ":02000002%04X%02X\r\n") && g_ended == 0, "a page record");
	CHECK(g_at < g_size && (g_at & 16383) == 0 && g_page == (g_at >> 14) && page == g_page && g_rec == g_at, "before each 16 KB of data");
	CHECK(((2 + 2 + (page & 255) + (page >> 8) + (int)chk) & 255) == 0 && chk < 256, "its checksum"); g_page++;
}
void vc_data(const char *f, unsigned len, unsigned addr, const unsigned char *d, unsigned chk) {
	CHECK(vc_same(f, ":%02X%04X00%s%02X\r\n") && g_ended == 0, "a data record");
	CHECK(g_at < g_size && g_page == (g_at >> 14) + 1 && (long)len == LEN && addr == g_base + (unsigned)(g_at & 16383), "up to 32 bytes, after those before, at their address");
	CHECK(IMP(g_w >= 0 && g_w < (int)len, d[2 * g_w] == HEXD(g_buf[g_at + g_w] >> 4) && d[2 * g_w + 1] == HEXD(g_buf[g_at + g_w] & 15)) && d[2 * len] == 0, "their values");
	unsigned s = len + (addr >> 8) + addr + g_sum;
	CHECK(((s + chk) & 255) == 0 && chk < 256, "its checksum"); g_at += len; g_rec = g_at; g_sum = 0;
}
void vc_end(const char *f) { CHECK(vc_same(f, ":00000001FF") && g_ended == 0 && g_at == g_size && g_page == (g_size + 16383) >> 14, "the end, when all is written"); g_ended = 1; }
#define VC_5(f, a, b, c, d) vc_data(f, a, b, c, d)
#define VC_3(f, a, b) vc_page(f, a, b)
#define VC_1(f) vc_end(f)
#define VC_PICK(a1, a2, a3, a4, a5, m, ...) m
#define fprintf(o, ...) VC_PICK(__VA_ARGS__, VC_5, VC_4, VC_3, VC_2, VC_1, 0)(__VA_ARGS__)
#include "export.cpp"
HARNESS(h_hex) {
	g_size = (int)nondet_vc_ll(); ASSUME(g_size >= 0 && g_size <= 8000096); g_buf = (unsigned char *)malloc(g_size + 1); ASSUME(g_buf != 0); g_base = (unsigned)nondet_vc_ll(); ASSUME(g_base <= 0xC000 && (g_base & 0x3FFF) == 0); g_w = nondet_vc_char(); g_page = g_ended = 0; g_sum = 0; g_at = g_rec = 0;
	FILE *f; intelhex(f, g_buf, g_size, g_base);
	CHECK(g_ended == 1, "the file is ended"); REACH();
}
#endif
