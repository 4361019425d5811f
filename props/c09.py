from vclib import Unit
META = dict(
    title="A forward reference assembles exactly as if its value had been known at once",
    statement="An operand whose value is not known yet reserves exactly the bytes its kind takes, raises no diagnostic of its own, and is saved with its macro-expanded text, kind, instruction size, address, position in the output and listing, source file, line and reusable-label position; a known value is written at once, and a fatal error in it is reported. The second pass evaluates every saved operand once, in source order and in exactly its saved context, and writes each value that is now known over its placeholder in the form first asked for; saved echo and show output follows, in order and in its own context. Afterwards the output position, listing position and current file are what the first pass left.",
    forall="all operand kinds, values and contexts; lists of deferred operands and outputs of any length",
    why="Tests hold a few forward references; keeping every field for each kind and any number of references needs all lists.",
    files=["pass_two.cpp"], mechanism=[("deferral", "pass_two.cpp add_pass_two_expr, add_pass_two_output"), ("second pass", "pass_two.cpp run_second_pass")],
    how="contracts of the three functions; the expression parser, operand writer (C01), sessions (C19) and expansion (C31) by contract. The list is represented by one node that turns into the next arbitrary node when it is freed, so the loop contracts cover lists of any length; a ghost record per entry says what must have happened before it is released.",
    note="Deductive proof, lists of any length. Assumed: the contracts of parse_num, expand_expr and the error sessions; entries are only reached through the list head (checked: no other pointer is dereferenced).")
R = "out_ptr, listing_offset, listing_on, program_counter, line_num, curr_input_file, g_reus, expr_list, X, Y, g, g_left, value, old_expr, exit_code, error_occurred, gh"
UNITS = [
    Unit("add_expr", "c09.c", "h_add", dfcc=False, drop=["write_arg"], defs=["VC_ADD"], functions=["add_pass_two_expr"], native_defs=["VC_ADDN"]),
    Unit("add_output", "c09.c", "h_add_out", dfcc=False, drop=["write_arg"], defs=["VC_ADD"], functions=["add_pass_two_output"], native=False),
    Unit("run", "c09.c", "h_run", dfcc=False, drop=["write_arg"], functions=["run_second_pass"], bound=dict(defs=["VC_BOUND=3"], unwind=5),
         loops={"pass_two.cpp": {
             ("run_second_pass", 0): "__CPROVER_assigns(out_ptr, listing_offset, listing_on, program_counter, line_num, curr_input_file, g_reus, expr_list, X, Y, g, g_left, value, old_expr) __CPROVER_loop_invariant(g_left >= 0 && expr_list == (g_left ? &X : 0) && (g_left ? X.next == (g_left > 1 ? &X : 0) && X.expr == tx && g.parses == 0 && g.writes == 0 && g.frees == 0 : !g_oleft || (Y.next == (g_oleft > 1 ? &Y : 0) && Y.expr == ty && (Y.type == OUTPUT_ECHO || Y.type == OUTPUT_SHOW) && g.parses == 0 && g.frees == 0 && g.sess == 0 && g.replayed == 0 && g.ended == 0))) __CPROVER_decreases(g_left)",
             ("run_second_pass", 1): "__CPROVER_assigns(program_counter, line_num, curr_input_file, g_reus, output_list, Y, g, g_oleft, old_output, gh) __CPROVER_loop_invariant(g_left == 0 && g_oleft >= 0 && output_list == (g_oleft ? &Y : 0) && IMP(g_oleft, Y.next == (g_oleft > 1 ? &Y : 0) && Y.expr == ty && (Y.type == OUTPUT_ECHO || Y.type == OUTPUT_SHOW) && g.parses == 0 && g.frees == 0 && g.sess == 0 && g.replayed == 0 && g.ended == 0)) __CPROVER_decreases(g_oleft)",
         }}),
]
