from vclib import Unit
META = dict(
    title="Expandable buffers keep their text and never overflow",
    statement="Inserting text into an expandable buffer at a position (or at its end) yields the old text up to there, the inserted text and the rest of the old text, in a buffer that is always large enough, and returns the position behind the inserted text; inserting nothing changes nothing. Overwriting changes exactly the given range. Extracting returns the buffer's text. No operation touches memory outside the buffer.",
    forall="buffers and texts of any size (up to 1,000,000 bytes), all positions",
    why="Listings, expanded expressions and fcreate texts are built in these buffers; growth and insertion in the middle need every size and position.",
    files=["expand_buf.cpp"], mechanism=[("buffers", "expand_buf.cpp eb_init, eb_append, eb_insert, eb_overwrite, eb_get_char, eb_extract, eb_free")],
    how="postconditions over an arbitrary witness position of the result, a loop contract on the growth loop, contracts of realloc, memmove, strncpy that check their whole range.",
    note="Deductive proof. Assumed: the C library's block functions; inserted text holds no zero bytes. eb_erase is not used by the assembler and not covered.")
L = {"expand_buf.cpp": {("eb_insert", 0): "__CPROVER_assigns(buf->size) __CPROVER_loop_invariant(buf->size >= 1 && buf->size <= 2 * (used + length)) __CPROVER_decreases(2 * (used + length) - buf->size)"}}
K = dict(dfcc=False, flags=["--arrays-uf-always"], bound=dict(defs=["VC_BOUND=4"], unwind=7))
UNITS = [
    Unit("insert", "c17.c", "h_insert", loops=L, functions=["eb_insert"], **K),
    Unit("insert_len", "c17.c", "h_insert_len", loops=L, functions=["eb_insert", "eb_append"], **K),
    Unit("empty", "c17.c", "h_empty", loops=L, functions=["eb_insert"], **K),
    Unit("other", "c17.c", "h_rest", functions=["eb_overwrite", "eb_get_char", "eb_extract", "eb_init", "eb_free"], **K),
]
