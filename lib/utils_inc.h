/* utils.cpp with the diagnostics stubbed (CBMC) or real, printing nothing and counted (native) */
#if defined(NATIVE) && !defined(VC_REAL_SHOW)
#undef show_error
#undef show_warning
#undef show_fatal_error
static int vc_color;
WORD save_console_attributes() { return 0; }
BOOL set_console_attributes(unsigned short c) { vc_color = c; return 1; }
void restore_console_attributes(WORD) {}
#define printf(...) 0
#define vprintf(t, a) 0
#define putchar(c) (vc_color == COLOR_YELLOW ? gh_showwarn++ : gh_showerr++)
#include "utils.cpp"
#undef printf
#undef vprintf
#undef putchar
#else
#include "utils.cpp"
#endif
