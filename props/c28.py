from vclib import Unit
META = dict(
    title="Names are folded to upper case exactly",
    statement="The upper-case copy of a name, which label and define lookups are keyed by, has the name's length, each letter a-z replaced by its upper-case letter and every other byte (of any value) unchanged; the name itself is not modified and nothing outside the copy is written.",
    forall="all texts of any length (up to 1,000,000 bytes) and content",
    why="The copy works four bytes at a time with carries between them and a tail of up to three; tests use a few short names.",
    files=["modp_ascii.cpp", "utils.cpp"], mechanism=[("copy", "modp_ascii.cpp modp_toupper_copy"), ("caller", "utils.cpp strup")],
    how="loop contract on the four-bytes-at-a-time loop with an arbitrary witness position; strup against modp_toupper_copy's contract.",
    note="Deductive proof.")
W = ("__CPROVER_assigns(i, d, eax, ebx, __CPROVER_object_whole(dest)) __CPROVER_loop_invariant(i >= 0 && i <= imax && SAMEOBJ(d, dest) && OFF(d) == 4L * i && IMP(g_k < 4L * i, (unsigned char)dest[g_k] == sp_upper(((const unsigned char *)str)[g_k]))) __CPROVER_decreases(imax - i)")
UNITS = [
    Unit("copy", "c28.c", "h_upper", loops={"modp_ascii.cpp": {("modp_toupper_copy", 0): W}}, dfcc=False, flags=["--arrays-uf-always"], functions=["modp_toupper_copy"], bound=dict(defs=["VC_BOUND=9"], unwind=11)),
    Unit("strup", "c28.c", "h_strup", dfcc=False, flags=["--arrays-uf-always"], defs=["VC_STRUP"], functions=["strup"]),
]
