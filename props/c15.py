from vclib import Unit
META = dict(
    title="Expressions and arguments are read up to their own delimiter",
    statement="Reading an expression from a line skips leading blanks and takes the text up to the first delimiter or end of code that is outside strings, character literals, escapes and parentheses, or up to a closing parenthesis that was not opened in it, without the blanks at its end. There is no expression when the rest of the statement is empty or starts with a closing parenthesis. Text longer than 254 characters is a fatal error; at most 255 bytes are ever stored. An argument list gives its comma-separated arguments one by one, and a missing argument after a comma is an error. Reading never leaves the text.",
    forall="all texts of any length and content, all start positions, all delimiter sets of up to three characters (exact end: texts whose character literals are well formed)",
    why="Tests use short, well-formed argument lists; nesting, quotes, escapes and over-long expressions need every text.",
    files=["utils.cpp"], mechanism=[("expressions", "utils.cpp read_expr_impl"), ("arguments", "utils.cpp extract_arg_string")],
    how="loop contracts on the copying and trimming loops with an arbitrary witness position; a ghost reader (strings, literals, escapes, nesting) in lockstep shows the exact end for well-formed texts; extract_arg_string against read_expr_impl's contract.",
    note="Deductive proof. Contracts used: scanners (C14).")
V = "(*ptr), word_ptr, in_string, in_escape, in_quote, level, glq, __CPROVER_object_whole(buf)"
INV = ("SAMEOBJ(*ptr, g_s) && OFF(*ptr) >= g_st && OFF(*ptr) <= g_n && in_quote >= 0 && in_quote <= 2 && glq >= g_st - 1 && glq < OFF(*ptr) && IMP(in_quote > 0, glq >= g_st && OFF(*ptr) - glq >= 3 - in_quote)"
       "&& level >= 0 && level <= (in_quote > 0 ? glq : OFF(*ptr)) - g_st && gh_showerr == 0 && buf[255] == 77"
       "&& ((SAMEOBJ(word_ptr, buf) && OFF(word_ptr) == OFF(*ptr) - g_st && OFF(word_ptr) <= 254 && IMP(g_k < OFF(word_ptr), (unsigned char)buf[g_k] == CH(g_st + g_k))))")
M = " && IMP(g_m < OFF(word_ptr), (unsigned char)buf[g_m] == CH(g_st + g_m)) && IMP(g_m < OFF(*ptr) - g_st, CH(g_st + g_m) != 0)"
TRIM = ("__CPROVER_assigns(word_ptr, __CPROVER_object_whole(buf)) __CPROVER_loop_invariant(SAMEOBJ(word_ptr, buf) && OFF(word_ptr) >= 0 && OFF(word_ptr) <= OFF(*ptr) - g_st && OFF(word_ptr) <= 254 && buf[255] == 77"
        "&& IMP(g_k < OFF(word_ptr), (unsigned char)buf[g_k] == CH(g_st + g_k)) && IMP(g_k >= OFF(word_ptr) && g_k < OFF(*ptr) - g_st, sp_space(CH(g_st + g_k)))"
        + M + " && IMP(g_m > OFF(word_ptr) && g_m <= OFF(*ptr) - g_st, buf[g_m - 1] == 0)) __CPROVER_decreases(OFF(word_ptr))")
def loops(extra_v="", extra_i="", ghost="", dec="g_n - glq, (in_quote > 0), g_n - OFF(*ptr)", INV=INV, M=M, TRIM=TRIM):
    return {"utils.cpp": {("read_expr_impl", 0): ("__CPROVER_assigns(%s%s) __CPROVER_loop_invariant(%s%s) __CPROVER_decreases(%s)" % (V, extra_v, INV + " && 1" + M, extra_i, dec),
                          "if (!in_escape && !in_string && in_quote == 0 && **ptr == '\\'') glq = OFF(*ptr); " + ghost),
                          ("read_expr_impl", 1): TRIM}}
B = dict(defs=["VC_BOUND=5"], unwind=9)
P = ["skip_whitespace", "is_end_of_code_line", "mystrpbrk"]
K = dict(dfcc=False, flags=["--arrays-uf-always"])
UNITS = [
    Unit("read", "c15.c", "h_read", loops=loops(), drop=P, functions=["read_expr_impl"], bound=B, **K),
    Unit("read_exact", "c15.c", "h_read", native=False, loops=loops(", g_str, g_esc, g_lit, g_two, g_depth",
         " && in_string == g_str && g_str >= 0 && g_str <= 1 && g_esc >= 0 && g_esc <= 1 && g_lit >= 0 && g_lit <= 3 && IMP(g_esc, g_lit == 0) && IMP(g_lit, !g_str) && level == g_depth"
         " && OFF(*ptr) + g_lit <= g_n && IMP(g_lit == 1, CH(OFF(*ptr)) == '\\'') && IMP(g_lit == 2, CH(OFF(*ptr) + 1) == '\\'' && CH(OFF(*ptr)) != 0 && IMP(!g_two, CH(OFF(*ptr)) != '\\\\')) && IMP(g_lit == 3, g_two && CH(OFF(*ptr)) == '\\\\' && CH(OFF(*ptr) + 1) != 0 && CH(OFF(*ptr) + 2) == '\\'')"
         " && in_escape == (g_esc || (g_lit == 2 && g_two)) && in_quote == (g_lit == 3 ? 2 : g_lit == 2 ? (g_two ? 1 : 2) : g_lit)",
         "__CPROVER_assume(WELL(OFF(*ptr))); __CPROVER_assert(!STOPS(CH(OFF(*ptr))) || CH(OFF(*ptr)) == ')', \"spec: a delimiter outside strings, literals, escapes and parentheses ends the expression\"); if (!STOPS(CH(OFF(*ptr)))) vc_read_step(OFF(*ptr));",
         INV=INV.replace(", (unsigned char)buf[g_k] == CH(g_st + g_k))", ", 1)"), M="", TRIM="__CPROVER_assigns(word_ptr, __CPROVER_object_whole(buf)) __CPROVER_loop_invariant(SAMEOBJ(word_ptr, buf) && OFF(word_ptr) >= 0 && OFF(word_ptr) <= OFF(*ptr) - g_st && OFF(word_ptr) <= 254) __CPROVER_decreases(OFF(word_ptr))"), defs=["VC_EXACT"], drop=P, functions=["read_expr_impl"], bound=B, **K),
    Unit("read_nothing", "c15.c", "h_read", kind="bounded", dfcc=False, defs=["VC_NULL", "VC_BOUND=5"], unwind=9, flags=["--no-pointer-check"], bound_note="texts up to 5 characters without single quotes, skipped without storing", drop=P, functions=["read_expr_impl"]),
    Unit("argument", "c15.c", "h_arg", defs=["VC_ARG"], drop=P + ["read_expr_impl"], functions=["extract_arg_string"], native_defs=["VC_N"], **K),
]
