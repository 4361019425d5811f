from vclib import Unit
META = dict(
    title="Expanding an expression replaces names and keeps everything else",
    statement="An expression kept for the second pass, a macro argument or a redefined macro is expanded from front to back, every character dealt with exactly once: a name that is a define (an argument of the current call first, unless only global ones are asked for) is replaced by the expansion of its contents, with the arguments of that call in force during it and gone after it; a name that is a label by its value in decimal, in full; any other name stays. String literals (up to the closing quote, which a backslash hides) and everything between names are kept unchanged. Contents nested more than 20 deep are an error.",
    forall="all texts of any length, all contents of the tables",
    why="A name inside a string, at the end of the text or behind a macro call must be treated right wherever it stands; tests expand a few short expressions.",
    files=["utils.cpp"], mechanism=[("expansion", "utils.cpp expand_expr_full"), ("result", "utils.cpp expand_expr")],
    how="loop contracts on the three loops of expand_expr_full over a text of arbitrary length, with a ghost position that every piece written must start at, a ghost scanner for string literals and an arbitrary witness position for 'no name is copied unlooked'; the recursive call by contract.",
    note="Deductive proof. Contracts used: skip_to_name_end (C14), search_defines/search_labels/parse_args/remove_arg_set (C12), expandable buffers (C17). Assumed: snprintf's %d, strndup, strchr as in C. Known finding: the code does not recognise character literals, so the name in 'A' is looked up like any other. Left out: a string literal directly behind another one (no operator between them), whose quote is copied on its own.")
G = "g_cur, g_q, g_ne, g_dlen, g_st, g_strdone, g_defs, g_labs, g_hasdef, g_haslab, g_rm, g_stop, g_args, g_fmt, g_fmtbuf, error_occurred"
UNITS = [
    Unit("expand", "c31.c", "h_expand", dfcc=False, flags=["--arrays-uf-always"], functions=["expand_expr_full"], recstub=["expand_expr_full"], hoist=["expand_expr_full"], drop=["skip_to_name_end", "parse_args", "eval"], unwind=4,
         loops={"utils.cpp": {
             ("expand_expr_full", 0): ("__CPROVER_assigns(expr, block_start, name, define, label, name_len, " + G + ") __CPROVER_loop_invariant(g_cur >= 0 && g_cur <= g_n && expr == g_s + g_cur && (g_st == 0 || g_st == 3) && g_stop == 0) __CPROVER_decreases(g_n - g_cur)", "START();"),
             ("expand_expr_full", 1): ("__CPROVER_assigns(expr, g_q) __CPROVER_loop_invariant(g_q > g_cur && g_q <= g_n && expr == g_s + g_q) __CPROVER_decreases(g_n - g_q)", "STEP();"),
             ("expand_expr_full", 2): "__CPROVER_assigns(expr) __CPROVER_loop_invariant(SAMEOBJ(expr, g_s) && OFF(expr) >= g_cur && OFF(expr) <= g_n && IMP(g_k >= g_cur && g_k < OFF(expr), CH(g_k) != 0 && !sp_name(CH(g_k)) && CH(g_k) != 34)) __CPROVER_decreases(g_n - OFF(expr))",
         }}, bound=dict(defs=["VC_BOUND=3"], unwind=8)),
    Unit("result", "c31.c", "h_top", dfcc=False, defs=["VC_TOP"], functions=["expand_expr"], drop=["expand_expr_full", "eval", "skip_to_name_end", "parse_args"], unwind=4),
]
