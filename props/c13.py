from vclib import Unit
META = dict(
    title="Conditional assembly assembles exactly one branch of each block",
    statement="Of the branches of an #if, #ifdef or #ifndef block the first whose condition holds (an expression that has a value other than 0; a name with a defined value), or else that of #else, is assembled, and no other; assembly then goes on behind the block's #endif, on the same line too. Blocks nest: the words that end a branch are those outside inner blocks, looked for in every statement of every line, and lines are counted while skipping. A block without end, #else, #elif or #endif without a block, a missing condition or name and an unknown word are errors. #comment skips to #endcomment; #undef removes a definition.",
    forall="all source texts and line lengths, any nesting depth and branch structure, all conditions",
    why="Which statements are assembled must be right for every nesting; tests use two levels.",
    files=["preop.cpp"], mechanism=[("search", "preop.cpp skip_until"), ("branches", "preop.cpp do_if, handle_preop_if, end_if"), ("words", "preop.cpp handle_preop")],
    how="skip_until with loop contracts against a ghost automaton stepped once per statement (nesting level, stop); do_if, handle_preop_if and handle_preop by contract with the search as contracted callee.",
    note="Deductive proof. Used contracts: line_has_word (bounded in C14), next_code_line, skip_to_next_line, parse_num. #macro and #defcont are left out here.")
D = ["handle_preop_define", "handle_preop_include", "handle_preop_import", "full_path", "parse_arg_defs"]
K = dict(dfcc=False, flags=["--arrays-uf-always"])
UNITS = [
    Unit("skip_until", "c13.c", "h_skip", defs=["VC_SKIP"], functions=["skip_until"], drop=D + ["handle_preop", "handle_preop_if", "do_if"], preunwind=4, unwind=5,
         loops={"preop.cpp": {
             ("skip_until", 0): "__CPROVER_assigns(ptr, level, line_num_copy, argp, g_p, g_line, g_le, g_lines, g_kind, g_level, g_stop, error_occurred) __CPROVER_loop_invariant(SAMEOBJ(ptr, g_s) && OFF(ptr) == g_line && g_line >= 0 && g_line <= g_n && g_stop == 0 && level == g_level && level >= 0 && level < 2000000000 && g_lines >= 0 && g_lines <= g_line && (g_lines == 0 || error_occurred || g_p > g_line - 3) && line_num_copy == line_num + g_lines && line_num == __CPROVER_loop_entry(line_num)) __CPROVER_decreases(g_n - g_line)",
             ("skip_until", 1): ("__CPROVER_assigns(line, level, argp, g_p, g_kind, g_level, g_stop, error_occurred) __CPROVER_loop_invariant(g_line == g_le && OFF(line_end) == g_le && SAMEOBJ(line, g_s) && OFF(line) == g_p && g_p >= 0 && g_p <= g_n && g_stop == 0 && level == g_level && level >= 0 && level < 2000000000) __CPROVER_decreases(g_n - g_p)", "sp_stmt();"),
         }}, **K),
    Unit("do_if", "c13.c", "h_do_if", defs=["VC_DOIF"], functions=["do_if", "end_if"], drop=D + ["handle_preop", "handle_preop_if", "skip_until"], **K),
    Unit("if", "c13.c", "h_if", defs=["VC_IF"], functions=["handle_preop_if"], drop=D + ["handle_preop", "do_if", "skip_until"], **K),
    Unit("words", "c13.c", "h_preop", defs=["VC_PREOP"], functions=["handle_preop", "end_if"], drop=D + ["handle_preop_if", "do_if", "!skip_until"], unwind=20, preunwind=20,
         loops={"preop.cpp": {("handle_preop", 0): "__CPROVER_assigns(name_end) __CPROVER_loop_invariant(SAMEOBJ(name_end, g_s) && OFF(name_end) >= 0 && OFF(name_end) <= g_n && (!(g_k >= 0 && g_k < OFF(name_end)) || (CH(g_k) != 0 && !sp_space(CH(g_k))))) __CPROVER_decreases(g_n - OFF(name_end))"}}, **K),
]
