from vclib import Unit
META = dict(
    title="Mnemonics and eZ80 size suffixes select the opcode; the address advances",
    statement="In eZ80 mode a mnemonic may end, in any letter case, in one of .s .l .is .il .sis .lis .sil .lil; a part not given follows the current (ADL or not) mode, and anything else is no suffix. The mnemonic without it, compared whole and ignoring case, selects the first opcode of that name in the table, whatever rows the table holds. If the operands fit one of its rows, exactly that row is written, with its operands and suffix, and the address and code size advance by exactly the size reported for it; otherwise nothing advances. A name that is neither opcode nor macro is an error.",
    forall="all name texts and opcode tables of any length, all modes and instruction sizes",
    why="Tests use a few mnemonics; prefixes of opcodes, suffix-like names, added opcodes and every suffix in both modes need all inputs.",
    files=["pass_one.cpp"], mechanism=[("suffix", "pass_one.cpp parse_suffix"), ("opcode lookup, address", "pass_one.cpp handle_opcode_or_macro")],
    how="parse_suffix against a table of the suffixes; handle_opcode_or_macro's lookup loop under a loop contract over a table of symbolic length with symbolic names, its callees by contract.",
    note="Deductive proof. Contracts used: skip_to_name_end, skip_whitespace (C14), match_opcode_args (C06), write_instruction_data (C02). Assumed: strncasecmp, strlen as in C. Macro and built-in function calls are outside this property (C12).")
U = ["--arrays-uf-always"]
UNITS = [
    Unit("suffix", "c05.c", "h_suffix", dfcc=False, flags=U, functions=["parse_suffix"]),
    Unit("lookup", "c05.c", "h_lookup", dfcc=False, flags=U, defs=["VC_LOOKUP"], functions=["handle_opcode_or_macro"], drop=["parse_suffix", "match_opcode_args", "write_instruction_data", "run_first_pass", "run_first_pass_line", "run_first_pass_line_sec"], unwind=6,
         loops={"pass_one.cpp": {("handle_opcode_or_macro", 0): ("__CPROVER_assigns(curr_opcode, X, g_i, g_len, g_pre, g_missed) __CPROVER_loop_invariant(g_i >= 0 && g_i <= g_no && curr_opcode == (g_i < g_no ? &X : (opcode *)0) && X.name == &g_nm[0] && !g_missed && IMP(g_i, !MATCH)) __CPROVER_decreases(g_no - g_i)",
            "next_x();")}}),
]
