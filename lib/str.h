/* Unbounded strings: one object g_s of g_n+1 bytes with g_s[g_n]==0 (NULs may also occur earlier).  g_o is the position a scan
 * starts from, g_k an arbitrary witness position ("for all k" clauses are stated for this unconstrained k). */
#ifndef VC_STR_H
#define VC_STR_H
char *g_s; long g_o, g_n, g_k;
#define CH(i) ((unsigned char)g_s[i])
/* macros, not functions: CBMC wants loop invariants free of calls */
#define U8(c) ((c) & 255)
/* (bit masks: each macro reads the character three times at most) */
#define SP_SET(c, m0, m1) (int)(((U8(c) < 64 ? m0 : U8(c) < 128 ? m1 : 0ULL) >> (U8(c) & 63)) & 1)
#define sp_space(c) SP_SET(c, 0x100003e00ULL, 0x0ULL)
#define sp_alpha(c) SP_SET(c, 0x0ULL, 0x7fffffe07fffffeULL)
#define sp_digit(c) SP_SET(c, 0x3ff000000000000ULL, 0x0ULL)
#define sp_xdigit(c) SP_SET(c, 0x3ff000000000000ULL, 0x7e0000007eULL)
#define sp_blank(c) SP_SET(c, 0x100001a00ULL, 0x0ULL)
#define sp_name(c) SP_SET(c, 0x83ff400200000000ULL, 0x7fffffeaffffffeULL)
#define sp_eocl(c) SP_SET(c, 0x800000000002401ULL, 0x10000000ULL)
#define sp_lower(c) (U8(c) >= 'A' && U8(c) <= 'Z' ? U8(c) + 32 : U8(c))
#define sp_upper(c) (U8(c) >= 'a' && U8(c) <= 'z' ? U8(c) - 32 : U8(c))
#ifndef NATIVE
#define PTR_OK(p) (SAMEOBJ((p), g_s) && OFF(p) >= g_o && OFF(p) <= g_n)
/* a NUL-terminated view of g_s starting at p */
#define STR_REQ(p) REQ(g_n >= 0 && g_n < 0x7fffffff && g_o >= 0 && g_o <= g_n && __CPROVER_r_ok(g_s, g_n + 1) && g_s[g_n] == 0 && SAMEOBJ((p), g_s) && OFF(p) >= 0 && OFF(p) <= g_n)
#else
#define PTR_OK(p) ((p) >= g_s + g_o && (p) <= g_s + g_n)
#define OFF(p) ((long)((p) - g_s))
#endif
#endif
