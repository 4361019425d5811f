from vclib import Unit
META = dict(
    title="String literals reduce to exactly the bytes they denote",
    statement="Reducing a string literal replaces every control character (a backslash and the character after it) by the byte it denotes, keeps every other character, in order, and takes away the surrounding quotes when the text has at least two unescaped quotes and begins and ends with one; the length returned counts all bytes, zero bytes included. Escaping a text puts it in quotes with a backslash before each quote and backslash and copies everything else. Both stay inside their buffers.",
    forall="all texts of any length (up to 1,000,000 characters) and content, every position of the result (except the random control character)",
    why="Tests contain a handful of strings; adjacent escapes, trailing backslashes and quotes anywhere need every text.",
    files=["utils.cpp"], mechanism=[("reduce", "utils.cpp reduce_string_len, reduce_string"), ("escape", "utils.cpp escape_string")],
    how="a ghost reader of the original text runs in lockstep with the in-place rewriting loop; every position of the result is covered by an arbitrary witness, the unread rest of the text by a second one.",
    note="Deductive proof. Contracts used: character literals (C08), expandable buffers (C17). Assumed: memmove.")
R = {"utils.cpp": {("reduce_string_len", 0): ("__CPROVER_assigns(i, output, quote_count, gi, go, g_q, g_want, g_t0, g_tl, g_v, __CPROVER_object_whole(g_s)) "
     "__CPROVER_loop_invariant(i == gi && gi >= 0 && gi <= g_n && SAMEOBJ(output, g_s) && OFF(output) == go && go >= 0 && go <= gi && quote_count == g_q && g_q >= 0 && g_q <= go "
     "&& g_s[gi] == g_c[gi] && IMP(gi < g_n, g_s[gi + 1] == g_c[gi + 1]) && IMP(g_k < go, (unsigned char)g_s[g_k] == U8(g_want)) && IMP(g_k >= gi && g_k <= g_n, g_s[g_k] == g_c[g_k]) "
     "&& IMP(go > 0, (unsigned char)g_s[0] == U8(g_t0) && (unsigned char)g_s[go - 1] == U8(g_tl)) && IMP(g_q > go, 0)) __CPROVER_decreases(g_n - gi)",
     # instances of 'the unread text is unchanged' (proved for the arbitrary position g_k), then the ghost reader's step
     "__CPROVER_assume(IMP(gi + 2 <= g_n, g_s[gi + 2] == g_c[gi + 2]) && IMP(gi + 3 <= g_n, g_s[gi + 3] == g_c[gi + 3])); sp_reduce_step();")}}
E_ = {"utils.cpp": {("escape_string", 0): ("__CPROVER_assigns(i, gi, g_el, g_ev, g_len, g_have) __CPROVER_loop_invariant(i == gi && gi >= 0 && gi <= g_n && g_len == g_el && g_el >= 1 && g_el <= 1 + 2 * gi && IMP(g_k < g_el, g_have == g_ev) && g_fin == 0) __CPROVER_decreases(g_n - gi)",
      "__CPROVER_assume(g_s[gi] != 0); sp_escape_step();")}}
UNITS = [
    Unit("reduce", "c16.c", "h_reduce", loops=R, dfcc=False, flags=["--arrays-uf-always"], functions=["reduce_string_len"], bound=dict(defs=["VC_BOUND=6"], unwind=9)),
    Unit("reduce_string", "c16.c", "h_reduce_string", dfcc=False, defs=["VC_BOUND=6"], unwind=9, kind="bounded", bound_note="texts up to 6 characters", functions=["reduce_string"]),
    Unit("escape", "c16.c", "h_escape", loops=E_, dfcc=False, flags=["--arrays-uf-always"], defs=["VC_ESCAPE"], functions=["escape_string"], bound=dict(defs=["VC_BOUND=5"], unwind=9)),
]
