from vclib import Unit
META = dict(
    title="The output file's extension decides its format; .bin and .rom are verbatim",
    statement="The format written is the one named by the output file's extension (73p, 82p, 83p, 8xp, 8xv, 85p, 86p, 85s, 86s, 8xk, rom, hex, bin, in any letter case): the text behind the last dot, unless the name begins with that dot or a directory separator follows it. An unknown extension is warned about; it and a name without extension give a .bin. A .bin holds exactly the program's bytes; a .rom these and FF up to 512 KB. The name handed to the program and application formats is the path without its extension. A file that cannot be opened is one error and nothing is written.",
    forall="all file names shorter than the system's path limit, program sizes up to 8 MB, and contents",
    why="Dots and separators can stand anywhere in a path; the padding depends on the size.",
    files=["export.cpp"], mechanism=[("dispatch", "export.cpp write_file"), ("ROM", "export.cpp makerom")],
    how="write_file with contracts on its scans and the formats' writers by contract; makerom with contracts on both loops.",
    note="Deductive proof. fopen, strpbrk, strcpy, strcasecmp have their C meaning (contract stubs).")
L = lambda v, n: "__CPROVER_assigns(i, " + v + ") __CPROVER_loop_invariant(i >= " + ("g_i" if n else "0") + " && i <= g_n && " + v + " == i && (!(g_k > i && g_k <= g_n) || CH(g_k) != '.')) __CPROVER_decreases(i)"
UNITS = [
    Unit("write", "c23.c", "h_write", functions=["write_file"], drop=["siggen", "makeprgm", "makeapp", "alphanumeric", "findfield", "findfield_flex", "intelhex", "makerom", "makehex"], unwind=16, dfcc=False, flags=["--arrays-uf-always"], libs=["-lgmp", "-lcrypto"],
         loops={"export.cpp": {("write_file", 0): (L("g_i", 0), "g_i = i - 1;"), ("write_file", 3): (L("g_j", 3), "g_j = i - 1; VC_COPY(i)"),
                               ("write_file", 2): "__CPROVER_assigns(i) __CPROVER_loop_invariant(i >= 0 && i <= g_n) __CPROVER_decreases(i)",
                               ("write_file", 4): "__CPROVER_assigns(i, g_pos) __CPROVER_loop_invariant(i >= 0 && i <= output_len && g_pos == i) __CPROVER_decreases(output_len - i)"}}),
    Unit("rom", "c23.c", "h_rom", defs=["VC_ROM"], functions=["makerom"], drop=["siggen", "makeprgm", "makeapp", "alphanumeric", "findfield", "findfield_flex", "intelhex", "write_file", "makehex"], unwind=4, dfcc=False, flags=["--arrays-uf-always"], libs=["-lgmp", "-lcrypto"], native=False,
         loops={"export.cpp": {("makerom", 0): "__CPROVER_assigns(i, g_pos) __CPROVER_loop_invariant(i <= size && g_pos == i) __CPROVER_decreases(size - i)",
                               ("makerom", 1): "__CPROVER_assigns(i, g_pos) __CPROVER_loop_invariant(i >= size && g_pos == i && (i <= 524288 || i == size)) __CPROVER_decreases(524288 - (long)i)"}}),
]
