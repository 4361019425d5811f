/* Included first by every harness: project headers, the project's globals, assumed contracts of the error reporter. */
#include "vc.h"
#define __MAIN_C
#include "stdafx.h"
#include "spasm.h"
#include "storage.h"
#include "list.h"
#include "utils.h"
#include "errors.h"
#include "pass_one.h"
#include "pass_two.h"
#include "parser.h"
#include "directive.h"
#include "preop.h"
#include "opcodes.h"
#include "expand_buf.h"
#include "console.h"
#ifdef NATIVE
#define HARNESS(n) extern "C" void n(void)
#else
#define HARNESS(n) void n(void)
#endif
/* ghost record of diagnostics */
struct vc_ghost { unsigned err, warn, showerr, showwarn, errcode, warncode; } gh;
#define gh_err gh.err
#define gh_warn gh.warn
#define gh_showerr gh.showerr
#define gh_showwarn gh.showwarn
#define gh_errcode gh.errcode
#define gh_warncode gh.warncode
static inline void gh_reset(void) { gh_err = gh_warn = gh_showerr = gh_showwarn = 0; gh_errcode = gh_warncode = 0; }
#ifndef VC_REAL_ERRORS
/* assumed contract: a diagnostic is recorded, nothing the callers can observe changes (errors.cpp is verified in C20) */
void vc_err(DWORD c) { gh_err++; gh_errcode = c; }
void vc_warn(DWORD c) { gh_warn++; gh_warncode = c; }
#define SetLastSPASMError(c, ...) vc_err(c)
#define SetLastSPASMWarning(c, ...) vc_warn(c)
#endif
#ifndef VC_REAL_SHOW
void vc_showerr(void) { gh_showerr++; }
void vc_showwarn(void) { gh_showwarn++; }
void vc_showfatal(void) { gh_showerr++; error_occurred = true; if (exit_code < EXIT_FATAL_ERROR) exit_code = EXIT_FATAL_ERROR; }
#define show_error(...) vc_showerr()
#define show_warning(...) vc_showwarn()
#define show_fatal_error(...) vc_showfatal()
#endif
#ifndef NATIVE
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
void *memchr(const void *s, int c, size_t n) {
	const unsigned char *p = (const unsigned char *)s;
#define VC_M(i) if (n > i && p[i] == (unsigned char)c) return (void *)(p + i);
	VC_M(0) VC_M(1) VC_M(2) VC_M(3) VC_M(4) VC_M(5) VC_M(6) VC_M(7) VC_M(8) VC_M(9) VC_M(10) VC_M(11)
	__CPROVER_assert(n <= 12, "memchr model: size within the model's limit");
	return 0;
}
/* C-locale models of <ctype.h> */
#define VC_CT(name, expr) int name(int c) { return (expr); }
VC_CT(isspace, c == ' ' || (c >= 9 && c <= 13))
VC_CT(isdigit, c >= '0' && c <= '9')
VC_CT(isxdigit, (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))
VC_CT(isalpha, (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
VC_CT(isalnum, (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
VC_CT(isupper, c >= 'A' && c <= 'Z')
VC_CT(islower, c >= 'a' && c <= 'z')
VC_CT(isprint, c >= 32 && c <= 126)
VC_CT(toupper, (c >= 'a' && c <= 'z') ? c - 32 : c)
VC_CT(tolower, (c >= 'A' && c <= 'Z') ? c + 32 : c)
#endif
