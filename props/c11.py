from vclib import Unit
META = dict(
    title="Every statement of a source text is handled once, in order, as what it is",
    statement="The lines of a text are handled in order, numbered from 1, until its end or a fatal error; the statements of a line, separated by backslashes, likewise. A blank statement or comment does nothing. A name at the start of a statement is a label (a lone '_' a reusable one) with the current address, an optional colon ends it, and the rest is a statement of its own; directly followed by '(' it is a macro call, and after blanks an instruction or macro. '.' starts a directive, '#' a preprocessor line; '= value' gives the latest label the value and is an error without one; anything else is a syntax error.",
    forall="all source texts of any length, all modes, whatever the statement handlers return",
    why="The order and classification of statements must hold for every text; tests show a few layouts.",
    files=["pass_one.cpp"], mechanism=[("statements", "pass_one.cpp run_first_pass_line_sec"), ("lines", "pass_one.cpp run_first_pass_line, run_first_pass")],
    how="contract of run_first_pass_line_sec with the callees (and its own recursion) by contract; loop contracts with ghost positions on the statement and line loops, so every position is handled once and in order.",
    note="Deductive proof. Contracts used: scanners (C14), read_expr (C15), parse_num_now; the handlers return any position or none. What the handlers do is other properties' subject.")
H = ["parse_suffix", "write_instruction_data", "handle_opcode_or_macro", "match_opcode_args", "write_out"]
UNITS = [
    Unit("statement", "c11.c", "h_sec", dfcc=False, flags=["--arrays-uf-always"], defs=["VC_SEC"], functions=["run_first_pass_line_sec"], recstub=["run_first_pass_line_sec"], drop=H + ["run_first_pass", "run_first_pass_line", "do_listing_for_line"]),
    Unit("line", "c11.c", "h_line", dfcc=False, flags=["--arrays-uf-always"], defs=["VC_LINE"], functions=["run_first_pass_line"], drop=H + ["run_first_pass", "run_first_pass_line_sec", "do_listing_for_line"], bound=dict(defs=["VC_BOUND=4"], unwind=7),
         loops={"pass_one.cpp": {("run_first_pass_line", 0): "__CPROVER_assigns(ptr, g_p, g_first, g_null, g_cnt, error_occurred) __CPROVER_loop_invariant(SAMEOBJ(ptr, g_s) && OFF(ptr) == g_p && g_p >= 0 && g_p <= g_n && g_p >= __CPROVER_loop_entry(g_p) && (g_first == 1 || (g_first == 0 && CH(g_p) == '\\\\')) && g_null == 0 && error_occurred == 0) __CPROVER_decreases(2 * (g_n - g_p) + g_first)"}}),
    Unit("text", "c11.c", "h_pass", dfcc=False, flags=["--arrays-uf-always"], defs=["VC_PASS"], functions=["run_first_pass"], drop=H + ["run_first_pass_line", "run_first_pass_line_sec", "do_listing_for_line"], bound=dict(defs=["VC_BOUND=4"], unwind=7),
         loops={"pass_one.cpp": {("run_first_pass", 0): "__CPROVER_assigns(ptr, g_p, g_want, g_stage, g_null, g_lines, error_occurred, line_num, listing_for_line_done, listing_on, listing_width, listing_offset, line_start, old_line_num, adl_mode) __CPROVER_loop_invariant(SAMEOBJ(ptr, g_s) && OFF(ptr) == g_p && g_p >= 0 && g_p <= g_n && g_null == 0 && g_stage == 0 && line_num == g_want && IMP((mode & MODE_EZ80) && !g_lines, adl_mode != 0) && IMP(__CPROVER_loop_entry(error_occurred) != 0, g_lines == 0 && error_occurred != 0)) __CPROVER_decreases(g_n - g_p)"}}),
]
