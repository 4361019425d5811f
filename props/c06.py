from vclib import Unit
META = dict(
    title="An instruction's operands select the first table row they fit",
    statement="The rows of the opcode are tried in table order, then those of directly following groups of the same name; the first row whose pattern fits is selected. A pattern fits when its characters, ignoring case and blanks between them, and its operand places, each taking one whole expression up to the next comma outside strings and parentheses, cover the operands exactly to the end of the statement; an index offset may be left out, and (ixl) or the like is no index offset. The operands' texts are exactly those expressions. If no row fits, it is an error and no row is selected.",
    forall="all operand texts of any length, tables of up to 250 rows with patterns of up to 15 characters and three operands",
    why="Tests assemble some instruction forms; which row is chosen among a thousand patterns for arbitrary text is decided here.",
    files=["pass_one.cpp"], mechanism=[("operand matching", "pass_one.cpp match_opcode_args")],
    how="loop contracts on both loops; the specification is a ghost automaton stepped along the pattern, so code and specification must agree on every character; the callees by contract, the recursion into the next group by its own contract.",
    note="Deductive proof. Contracts used: skip_whitespace, is_end_of_code_line, is_name_char, is_arg (C14), read_expr (C15). An operand that is left out in front of a comma ends before it, as in the code.")
INV = "g.r == instr_num + 1 && curr_arg_num == g.a && g.a >= 0 && g.a <= 3 && g.pi >= 0 && g.pi <= 15 && SAMEOBJ(curr_arg, P) && OFF(curr_arg) == g.pi && SAMEOBJ(curr_arg_file, g_s) && OFF(curr_arg_file) == g.t && g.t >= g_start && g.t <= g_n && g.fail == 0 && IMP(g.a >= 3, P[g.pi] != '@') && P[15] == 0 && P[16] == 0 " \
    "&& IMP(g.a > 0, arg_ptrs[0] == g_ap[0] && arg_end_ptrs[0] == g_ae[0]) && IMP(g.a > 1, arg_ptrs[1] == g_ap[1] && arg_end_ptrs[1] == g_ae[1]) && IMP(g.a > 2, arg_ptrs[2] == g_ap[2] && arg_end_ptrs[2] == g_ae[2])"
UNITS = [
    Unit("match", "c06.c", "h_match", dfcc=False, flags=["--arrays-uf-always"], solver="cadical", timeout=500, functions=["match_opcode_args"], recstub=["match_opcode_args"], unwind=17,
         drop=["parse_suffix", "write_instruction_data", "run_first_pass", "run_first_pass_line", "run_first_pass_line_sec", "handle_opcode_or_macro"],
         loops={"pass_one.cpp": {
             ("match_opcode_args", 0): ("__CPROVER_assigns(instr_num, curr_arg_file, g, P, g_ap, g_ae, __CPROVER_object_whole(a_p), __CPROVER_object_whole(a_e)) __CPROVER_loop_invariant(instr_num >= 0 && instr_num <= g_no && g.r == instr_num && IMP(g.r > 0, P[15] == 0 && P[16] == 0 && g.a >= 0 && g.a <= 3 && g.pi >= 0 && g.pi <= 15 && g.t >= 0 && g.t <= g_n && !VERDICT && IMP(g.a >= 3, P[g.pi] != '@') && SAMEOBJ(curr_arg_file, g_s) && OFF(curr_arg_file) >= 0 && OFF(curr_arg_file) <= g_n)) __CPROVER_decreases(g_no - instr_num)", "sp_row();"),
             ("match_opcode_args", 1): ("__CPROVER_assigns(curr_arg, curr_arg_num, curr_arg_file, g, g_ap, g_ae, __CPROVER_object_whole(a_p), __CPROVER_object_whole(a_e)) __CPROVER_loop_invariant(" + INV + ") __CPROVER_decreases(16 - g.pi)", "sp_step();"),
         }}),
]
