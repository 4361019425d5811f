from vclib import Unit
META = dict(
    title="TI program, variable and string files: lengths, name, data and checksum",
    statement="Files written for .73p, .82p, .83p, .8xp, .8xv, .85p, .85s, .86p and .86s are byte for byte what the link file format asks for: the calculator's signature, the length of the data section, the variable header (type, name of at most eight characters taken from the file's name without its directory, padded where the calculator wants it), the data's length each time it stands there, the assembly token the calculator needs, the program's bytes in order (as hex digits with the end mark on the TI-83) and the checksum of the whole section.",
    forall="all program sizes up to 65000 bytes (32000 for .83p), all contents, names and paths",
    why="A link program rejects a file with one wrong length or checksum; which are wrong depends on the calculator, the name's length and the size.",
    files=["export.cpp"], mechanism=[("file", "export.cpp makeprgm")],
    how="makeprgm with contracts on its loops: every byte written is checked against a position-indexed specification of the format, one unit per calculator.",
    note="Deductive proof. printf conversions and C string functions are trusted; the name's letters (alphanumeric) are checked on the real code natively.")
INV = "__CPROVER_assigns(baseName) __CPROVER_loop_invariant(SAMEOBJ(baseName, g_s) && OFF(baseName) >= 0 && OFF(baseName) <= g_n && (!(g_k >= OFF(baseName) && g_k < g_n) || !SEP(CH(g_k)))) __CPROVER_decreases(OFF(baseName))"
BODY = "__CPROVER_assigns(i, chksum, progstring, g_pos, g_sum) __CPROVER_loop_invariant(i >= 0 && i <= size && size == g_size && g_pos == P0 + (g_calc == TYPE_83P ? 2 * (long)i : (long)i) && chksum == (int)g_sum && g_on == 1 && g_sum <= (unsigned)(g_pos - 55) << 8) __CPROVER_decreases(size - i)"
NP = "(60 + (LONGNAME ? 1 : 0))"
NAME = "__CPROVER_assigns(i, chksum, g_pos, g_sum) __CPROVER_loop_invariant(i >= 0 && i <= NLEN && namestring == g_name && g_pos == NP + i && chksum == (int)g_sum && g_on == 1 && g_sum <= (unsigned)(g_pos - 55) << 8) __CPROVER_decreases(8 - i)".replace("NP", NP)
PAD = "__CPROVER_assigns(i, g_pos, g_sum) __CPROVER_loop_invariant(i >= NLEN && i <= 8 && g_pos == NP + i && chksum == (int)g_sum && g_on == 1 && g_sum <= (unsigned)(g_pos - 55) << 8) __CPROVER_decreases(8 - i)".replace("NP", NP)
N = ["73p", "82p", "83p", "8xp", "8xv", "85p", "86p", "85s", "86s"]
UNITS = [Unit(n, "c22.c", "h_prgm", defs=["VC_PRGM", "VC_CALC=%d" % k], functions=["makeprgm"], native=(n == "73p"), timeout=500, drop=["siggen", "makeapp", "intelhex", "write_file", "alphanumeric"], unwind=44, dfcc=False, flags=["--arrays-uf-always"],
              loops={"export.cpp": {("makeprgm", 0): INV, ("makeprgm", 3): NAME, ("makeprgm", 5): BODY, **({} if n in ("85p", "85s") else {("makeprgm", 4): PAD})}}) for k, n in enumerate(N)]
