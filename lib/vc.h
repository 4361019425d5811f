/* Shared by every harness: one text, two readings.
 * goto-cc (C):   symbolic inputs, CBMC contract clauses.
 * g++ -DNATIVE:  the same harness linked against the unmodified C++ of /repo; inputs come from a replay file or a
 *                pseudo-random generator, and CHECK is a real test.  Used only to replay/confirm counterexamples. */
#ifndef VC_H
#define VC_H
#ifndef NATIVE
#define REQ __CPROVER_requires
#define ENS __CPROVER_ensures
#define ASG __CPROVER_assigns
#define OLD __CPROVER_old
#define RET __CPROVER_return_value
#define OFF(p) ((long)__CPROVER_POINTER_OFFSET(p))
#define SAMEOBJ(a, b) __CPROVER_same_object((a), (b))
#define WHOLE(p) __CPROVER_object_whole(p)
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "spec: " msg)
#define REACH() __CPROVER_assert(0, "reach: the end of the harness is reachable")
#define CBMC_ONLY(x) x
#define NATIVE_ONLY(x)
long long nondet_vc_ll(void);
char nondet_vc_char(void);
#define DECL_IN(nm) long long in_##nm;
#define IN(nm, lo, hi) ({ long long v_ = nondet_vc_ll(); __CPROVER_assume(v_ >= (long long)(lo) && v_ <= (long long)(hi)); in_##nm = v_; v_; })
/* A NUL-terminated string in an object of exactly n+1 bytes (n is returned through *len).  Contents arbitrary (NULs inside
 * allowed unless vc_nonul).  Proof configuration: n up to max.  Bounded configuration (VC_BOUND): n <= VC_BOUND. */
#ifdef VC_BOUND
#define VC_SLOTS 6
unsigned char in_str0[VC_BOUND + 1], in_str1[VC_BOUND + 1], in_str2[VC_BOUND + 1], in_str3[VC_BOUND + 1], in_str4[VC_BOUND + 1], in_str5[VC_BOUND + 1];
long long in_len0, in_len1, in_len2, in_len3, in_len4, in_len5;
#define IN_STR(slot, lenvar, lo, hi) ({ long long n_ = nondet_vc_ll(); __CPROVER_assume(n_ >= (lo) && n_ <= (hi) && n_ <= VC_BOUND); \
	in_len##slot = n_; lenvar = n_; char *p_ = (char *)malloc(n_ + 1); __CPROVER_assume(p_ != 0); \
	for (int i_ = 0; i_ < VC_BOUND; i_++) if (i_ < n_) { char c_ = nondet_vc_char(); in_str##slot[i_] = (unsigned char)c_; p_[i_] = c_; } \
	p_[n_] = 0; p_; })
#else
#define IN_STR(slot, lenvar, lo, hi) ({ long long n_ = nondet_vc_ll(); __CPROVER_assume(n_ >= (lo) && n_ <= (hi)); \
	lenvar = n_; char *p_ = (char *)malloc(n_ + 1); __CPROVER_assume(p_ != 0); p_[n_] = 0; p_; })
#endif
#define VC_CHARSET(s)
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#define REQ(...)
#define ENS(...)
#define ASG(...)
#define CBMC_ONLY(x)
#define NATIVE_ONLY(x) x
#define REACH()
#define DECL_IN(nm)
extern jmp_buf vc_skip;
long long vc_in(const char *name, long long lo, long long hi);
char *vc_in_str(const char *name, long long lo, long long hi, long *len);
void vc_fail(const char *msg, const char *file, int line);
extern const char *vc_charset;
#define IN(nm, lo, hi) vc_in(#nm, (lo), (hi))
#define IN_STR(slot, lenvar, lo, hi) ({ long l_; char *p_ = vc_in_str(#slot, (lo), (hi), &l_); lenvar = l_; p_; })
#define ASSUME(c) do { if (!(c)) longjmp(vc_skip, 1); } while (0)
#define CHECK(c, msg) do { if (!(c)) vc_fail(msg, __FILE__, __LINE__); } while (0)
#define VC_CHARSET(s) (vc_charset = (s))
#define SAMEOBJ(a, b) 1
#endif
#define IMP(a, b) (!(a) || (b))
#endif
