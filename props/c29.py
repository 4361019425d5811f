from vclib import Unit
META = dict(
    title="Bytes go to the output position, which never leaves the output",
    statement="Writing a byte stores exactly its low eight bits at the output position and advances it by one; when the 8,000,000-byte output is full nothing is stored and the assembly fails. With a listing, the byte appears there in hexadecimal, four to a row, at its place. '.seek' moves the output position by the difference of the new address to the current one and sets the address; a location outside the output is a fatal error that moves nothing. '.org' sets the address only, and not to a negative one. '.fill' and '.block' write as many copies of the low byte of the fill value (zero when none is given) as the size says and advance the address by it; a negative size is an error and a fill value outside -128 to 255 is warned about.",
    forall="all output positions, addresses, values and sizes",
    why="Tests produce outputs of a few bytes; positions near the end, large seeks and sizes need every value.",
    files=["pass_one.cpp", "directive.cpp"], mechanism=[("bytes", "pass_one.cpp write_out"), ("directives", "directive.cpp handle_directive (.seek, .org, .fill, .block)")],
    how="frame and postcondition of write_out over a symbolic output with a witness byte; the directives against contracts of expression reading and evaluation, a loop contract on the fill loop.",
    note="Deductive proof. Contracts used: read_expr_impl (C15), parse_num_now/parse_num (C07), expandable buffers (C17). Assumed: sprintf's two hexadecimal digits.")
K = dict(dfcc=False, flags=["--arrays-uf-always"])
P1 = []
D = dict(defs=["VC_DIR"], drop=["parse_emit_string", "show_define"], unwind=34, **K)
UNITS = [
    Unit("write", "c29.c", "h_write", defs=["VC_WRITE"], functions=["write_out"], bound=dict(defs=["VC_BOUND=3"], unwind=6),
         loops={"pass_one.cpp": {("write_out", 0): "__CPROVER_assigns(listing_offset) __CPROVER_loop_invariant((long)listing_offset >= g_min && (long)listing_offset <= g_lo) __CPROVER_decreases(g_n - (long)listing_offset)"}}, **K),
    Unit("seek", "c29.c", "h_seek", functions=["handle_directive (.seek)"], **D),
    Unit("org", "c29.c", "h_org", functions=["handle_directive (.org)"], **D),
    Unit("fill", "c29.c", "h_fill", functions=["handle_directive (.fill)"], bound=dict(defs=["VC_DIR", "VC_SMALL=3"], unwind=34),
         loops={"directive.cpp": {("handle_directive", 2): "__CPROVER_assigns(size, g_wr, g_wv, error_occurred) __CPROVER_loop_invariant(g_wr >= 0 && g_wr <= g_wmax && g_v1 >= 0 && (g_ok && g_have1 ? size >= 0 && size <= g_v1 && IMP(!error_occurred, g_wr == (long)g_v1 - size) : size == 0 && g_wr == 0 && !error_occurred) && IMP(error_occurred, g_wr == g_wmax && g_v1 > g_wmax) && IMP(g_wr > 0, g_wv == ((g_have2 ? g_v2 : 0) & 255))) __CPROVER_decreases(size)"}}, **D),
    Unit("block", "c29.c", "h_block", functions=["handle_directive (.block)"], bound=dict(defs=["VC_DIR", "VC_SMALL=3"], unwind=34),
         loops={"directive.cpp": {("handle_directive", 2): "__CPROVER_assigns(size, g_wr, g_wv, error_occurred) __CPROVER_loop_invariant(g_wr >= 0 && g_wr <= g_wmax && g_v1 >= 0 && (g_ok && g_have1 ? size >= 0 && size <= g_v1 && IMP(!error_occurred, g_wr == (long)g_v1 - size) : size == 0 && g_wr == 0 && !error_occurred) && IMP(error_occurred, g_wr == g_wmax && g_v1 > g_wmax) && IMP(g_wr > 0, g_wv == ((g_have2 ? g_v2 : 0) & 255))) __CPROVER_decreases(size)"}}, **D),
]
