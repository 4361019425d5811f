from vclib import Unit
META = dict(
    title="Instructions are emitted as prefix, opcode bytes, operands, trailer, in order",
    statement="For every instruction-table row, mode and eZ80 size suffix, the bytes emitted for a matched instruction are: the size-suffix prefix if one was written (.sis 40h, .lis 49h, .sil 52h, .lil 5Bh), the row's opcode bytes from the most to the least significant, each operand once in source order with the width its kind and the mode call for (an address or word operand is 3 bytes exactly with a long-immediate suffix, or without suffix in eZ80 long mode), and the row's trailing byte, combined with the bit number if the row takes one. "
              "The size reported for it, by which the address counter then advances, is the row's size plus one for the suffix byte and one for each 3-byte operand; for a row whose size adds up, that is exactly the number of bytes emitted, and relative jumps are measured from that end.",
    forall="all instruction rows with operand patterns of up to 10 characters and 3 operands, all opcode bytes, all operand texts, all modes and suffixes",
    why="Tests assemble a few instructions; the rule has to hold for each row (including rows users add) in each mode and suffix.",
    files=["pass_one.cpp"], mechanism=[("instruction emission", "pass_one.cpp write_instruction_data"), ("address counter", "pass_one.cpp handle_opcode_or_macro")],
    how="write_instruction_data is verified against an independent emission specification; write_out and is_arg by contract, the expression writer by a recording stub, loops over the (at most 10 character) pattern and 8 opcode bytes unwound completely, the two parenthesis-warning loops by loop contracts, so operand texts have any length.",
    note="Deductive proof of write_instruction_data for operand texts of any length; assumed: strndup/strlen/strcpy semantics (stubs), diagnostics only recorded; the address counter advance in the caller is a bounded check.")
UNITS = [
    Unit("write_instruction_data", "c02.c", "h_emit", dfcc=False, drop=["write_out"], functions=["write_instruction_data"], unwind=25, bound=dict(defs=["VC_BOUND=3"], unwind=25),
         loops={"pass_one.cpp": {
             ("write_instruction_data", 1): ("__CPROVER_assigns(i, size, curr_arg_num, bit_arg_text, has_bit_arg, g, cpy_src, cpy_dst, gh) __CPROVER_loop_invariant(i >= 0 && i <= g_np && g.expect == -1 && g.a >= 0 && g.a <= 3 && curr_arg_num == g.a "
                "&& g.bit >= -1 && g.bit < g.a && has_bit_arg == (g.bit >= 0) && (g.bit < 0 ? bit_arg_text == 0 : bit_arg_text == dup_p[g.bit]) && g.wo == g_npre && g.trail == 0 && g.nop >= 0 && g.nop <= g.a && g.words >= 0 && g.words <= g.a && g.earg < g.a && size == SIZE_SO_FAR) __CPROVER_decreases(g_np - i)",
                "sp_step(curr_instr->args[i]);"),
             ("write_instruction_data", 2): "__CPROVER_assigns(last) __CPROVER_loop_invariant(SAMEOBJ(last, arg_text) && OFF(last) >= 0 && OFF(last) <= OFF(__CPROVER_loop_entry(last))) __CPROVER_decreases(OFF(last))",
             ("write_instruction_data", 3): "__CPROVER_assigns(p, level) __CPROVER_loop_invariant(SAMEOBJ(p, arg_text) && OFF(p) >= 1 && (OFF(p) == 1 || OFF(p) <= OFF(last)) && level >= 0 && level <= OFF(p)) __CPROVER_decreases(OFF(last) + 2 - OFF(p))",
         }}, assumes=["strndup, strlen, strcpy behave as specified by C (stubs in the harness)", "a row's pattern has at most three operands (checked for every built-in row in C03/C04)"]),
    Unit("address_counter", "c02.c", "h_pc", kind="bounded", dfcc=False, defs=["VC_PC"], unwind=25, functions=["handle_opcode_or_macro", "match_opcode_args", "parse_suffix", "write_instruction_data", "write_out"],
         bound_note="a three-entry opcode table with one-to-three byte rows without operands, every letter case, five suffixes"),
]
