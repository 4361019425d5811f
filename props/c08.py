from vclib import Unit
LEVEL = "proof"
META = dict(
    title="Number and character literals have the value they spell, or are rejected",
    statement="A number literal is the longest run of letters and digits after an optional $ (base 16) or % (base 2) prefix, with a final h, b or d (either case) of an unprefixed literal selecting base 16, 2 or 10; it is accepted exactly when it has at least one digit, all its characters are digits of its base and its value is at most 2^32-1, and its value is then that number modulo 2^32. A rejected literal is reported with the matching error. A $ not followed by a hexadecimal digit is the address counter. "
              "A character literal is the character itself or the escape \\n \\r \\t \\0 \\\\ \\' (any other escaped character stands for itself); nothing beyond the end of the text is read.",
    forall="all literal texts of any length followed by any text; all characters",
    why="Tests use a few literals; suffix confusion (for example 0B versus B suffix), range limits and unterminated literals need all texts.",
    files=["parser.cpp"], mechanism=[("literals", "parser.cpp parse_single_num"), ("conversion", "parser.cpp conv_generic, conv_hex, conv_dec, conv_bin")],
    how="parse_single_num and conv_generic verified for texts of any length with loop contracts on the scanning loops and strtoll's C contract; 'every character' clauses are stated for an arbitrary witness position.",
    note="Deductive proof. Assumed: strtoll's C contract (0x prefixes inside literals excluded), C-locale ctype.")
D = ["parse_num_full", "parse_define", "parse_num", "parse_f", "parse_num_now"]
W = "__CPROVER_assigns(expr) __CPROVER_loop_invariant(SAMEOBJ(expr, g_s) && OFF(expr) >= %d && OFF(expr) %s g_n && IMP(g_k >= %d && g_k %s OFF(expr), sp_alnum(CH(g_k)))) __CPROVER_decreases(g_n - OFF(expr))"
UNITS = [
    Unit("number", "c08.c", "h_number", dfcc=False, drop=D + ["conv_hex", "conv_dec", "conv_bin", "conv_generic"], functions=["parse_single_num"],
         loops={"parser.cpp": {
             ("parse_single_num", 0): "__CPROVER_assigns(expr, this_reusable) __CPROVER_loop_invariant(1)",
             ("parse_single_num", 1): "__CPROVER_assigns(expr, this_reusable) __CPROVER_loop_invariant(1)",
             ("parse_single_num", 2): W % (1, "<=", 1, "<"), ("parse_single_num", 3): W % (1, "<=", 1, "<"), ("parse_single_num", 4): W % (0, "<", 0, "<=")}}),
    Unit("conv", "c08.c", "h_conv", dfcc=False, drop=D, defs=["VC_CONV"], functions=["conv_generic", "conv_hex", "conv_dec", "conv_bin"], native=False, timeout=60, bound=dict(defs=["VC_BOUND=12"], unwind=14), assumes=["strtoll's C contract (0x and 0b prefixes inside literals excluded)"]),
    Unit("char", "c08.c", "h_char", dfcc=False, drop=D, defs=["VC_CONV"], functions=["parse_single_num"]),
]
