from vclib import Unit
META = dict(
    title="Data directives emit each item once, in order, in the directive's size",
    statement="Of the items of a .db, .dw or .dl list each is emitted once and in order: a string as the bytes of its characters, a value as 1, 2 or 3 bytes, a value not known yet as an expression for pass two of the same size, a macro as the items it expands to; a string with an operator behind it, a macro without value and an unknown name are errors and emit nothing. The location and the data size advance by exactly what is emitted, in both passes. .echo prints strings and values in order.",
    forall="all item lists of any length, all values, strings and kinds of items in any order",
    why="A list is of any length and mixes all kinds of items; tests use short lists.",
    files=["directive.cpp"], mechanism=[("items", "directive.cpp parse_emit_string")],
    how="parse_emit_string with loop contracts against a ghost state of the current item (what it is, what is due, what was done); sessions, values, write_arg, pass-two expressions and its own recursion by contract.",
    note="Deductive proof. Used contracts: extract_arg_string, parse_num, read_expr, parse_args, parse_define, write_arg (C01), error sessions (C19). Whether a string's escapes are reduced right is C16; strings with text behind that is no operator are not judged.")
G = "g_item, g_first, g_len, g_val, g_w, g_done, g_in, g_inner, g_replayed, g_argset, g_freed, g_seterr, g_nargs, g_pc, g_data, g_word, g_ne, gh, error_occurred, program_counter, stats_datasize"
UNITS = [
    Unit("emit", "c30.c", "h_emit", defs=["VC_EMIT"], functions=["parse_emit_string"], drop=["handle_directive"], recstub=["parse_emit_string"], hoist=["parse_emit_string"], dfcc=False,
         loops={"directive.cpp": {
             ("parse_emit_string", 0): "__CPROVER_assigns(ptr, word, session, fWasParsed, name_end, context, " + G + ") __CPROVER_loop_invariant(SAMEOBJ(ptr, g_s) && SETTLED && program_counter == g_pc && stats_datasize == g_data && parse_emit_string__level == __CPROVER_loop_entry(parse_emit_string__level))",
             ("parse_emit_string", 1): "__CPROVER_assigns(i, g_w, program_counter, stats_datasize) __CPROVER_loop_invariant(i <= length && length == (size_t)g_len && g_w == (mode & (MODE_NORMAL | MODE_LIST) ? (int)i : 0) && program_counter + (unsigned)(length - i) == g_pc && stats_datasize + (unsigned)(length - i) == g_data) __CPROVER_decreases(length - i)",
         }}),
]
