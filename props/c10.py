from vclib import Unit
META = dict(
    title="Reusable labels refer to the n-th label before or after the reference",
    statement="A line label '_' records the current address as the next reusable label; at most 4096 are allowed and one more is a fatal error that leaves the table alone. A reference of n plus signs and an underscore (or just an underscore, for n = 1) is the address of the n-th reusable label after the reference, one of n minus signs and an underscore that of the n-th at or before it. A reference to a label that does not exist is an error and has no value (one further on may still be defined later), and the table is never read outside its labels. Saving and restoring the position between the passes is exact.",
    forall="all tables and positions, all references with any number of signs",
    why="Tests use one or two reusable labels; the table bounds and sign counting need every position and count.",
    files=["storage.cpp", "parser.cpp"], mechanism=[("table", "storage.cpp add_reusable, search_reusables, get_curr_reusable, set_curr_reusable"), ("references", "parser.cpp parse_single_num")],
    how="contract of add_reusable, frame included, lookups and positions over all table states with a witness entry; parse_single_num with loop contracts on the sign-counting loops for references of any length.",
    note="Deductive proof. That a line label '_' calls add_reusable is covered with the statement dispatcher (C11).")
P = ["parse_num_full", "parse_define", "parse_num", "parse_f", "parse_num_now", "conv_hex", "conv_dec", "conv_bin", "conv_generic"]
L = "__CPROVER_assigns(expr, this_reusable, g_at) __CPROVER_loop_invariant(SAMEOBJ(expr, g_s) && OFF(expr) == g_at && g_at >= %d && g_at <= g_sig && this_reusable == %s%s) __CPROVER_decreases(g_sig - g_at)"
UNITS = [
    Unit("add", "c10.c", "h_add", dfcc=False, flags=["--arrays-uf-always"], functions=["add_reusable"]),
    Unit("lookup", "c10.c", "h_search", dfcc=False, flags=["--arrays-uf-always"], functions=["search_reusables", "get_curr_reusable", "set_curr_reusable", "get_num_reusables"]),
    Unit("reference", "c10.c", "h_ref", dfcc=False, defs=["VC_REF"], drop=P, functions=["parse_single_num"], bound=dict(defs=["VC_BOUND=6"], unwind=9),
         loops={"parser.cpp": {
             ("parse_single_num", 0): (L % (0, "g_cur + g_at", ""), "g_at++;"),
             ("parse_single_num", 1): (L % (1, "g_cur - (g_at - 1)", " && (this_reusable >= 0 || g_at == 1)"), "g_at++;"),
             ("parse_single_num", 2): "__CPROVER_assigns(expr) __CPROVER_loop_invariant(1)", ("parse_single_num", 3): "__CPROVER_assigns(expr) __CPROVER_loop_invariant(1)", ("parse_single_num", 4): "__CPROVER_assigns(expr) __CPROVER_loop_invariant(1)"}}),
]
