from vclib import Unit
META = dict(
    title="Applications get their length, page count, name and header, or an error",
    statement="For a .8xk file, an application whose header lacks the length, the type 0104, the pages or the name field, or whose signature does not fit on its last page, is reported as one error and nothing is written. Otherwise the file is the 78 byte header (identifier, name of at most eight characters from the name field, device and type, length of the HEX text that follows) and, as Intel HEX, the program's bytes with only the length field (size less 6) and the page count filled in, followed by the signature, which is computed after these corrections, filled up to 96 bytes.",
    forall="all application sizes up to 8 MB, contents and positions of the header fields",
    why="Which bytes are touched and the length of the text depend on the size modulo 32 and 16384 and on where the fields lie.",
    files=["export.cpp"], mechanism=[("application", "export.cpp makeapp"), ("fields", "export.cpp findfield, findfield_flex")],
    how="makeapp with its callees by contract, one arbitrary byte of the buffer followed through every write; loops of constant length unwound completely; the field walks with loop contracts.",
    note="Deductive proof. MD5 and the signature arithmetic (GMP) are trusted: their calls' arguments and the use of their results are proved.")
UNITS = [Unit("app", "c24.c", "h_app", defs=["VC_APP"], functions=["makeapp"], drop=["siggen", "makeprgm", "write_file", "alphanumeric", "findfield", "findfield_flex", "intelhex"], unwind=30, dfcc=False, solver="cadical", flags=["--arrays-uf-always"], hoist=["=header8xk"], libs=["-lgmp", "-lcrypto"],
              loops={"export.cpp": {("makeapp", 1): "__CPROVER_assigns(tempnum, total_size, __CPROVER_object_whole(buffer)) __CPROVER_loop_invariant(tempnum >= 0 && tempnum <= 96 && buffer == g_b && (long)total_size + tempnum == g_size + 96 && (long)total_size >= g_size + g_sl + 4 + (g_f ? 1 : 0) && g_step == 2 && (g_k >= (long)total_size || g_b[g_k] == g_want)) __CPROVER_decreases(tempnum)"}}),
] + [
    Unit(n, "c24.c", e, functions=[fn], drop=["siggen", "makeprgm", "write_file", "alphanumeric", "makeapp", "intelhex"], unwind=4, dfcc=False, flags=["--arrays-uf-always"], libs=["-lgmp", "-lcrypto"],
         loops={"export.cpp": {(fn, 0): ("__CPROVER_assigns(pnt, g_end) __CPROVER_loop_invariant(pnt >= 6 && pnt <= g_size + 18 && buffer == g_b && g_end == pnt && g_r[pnt] == 1) __CPROVER_decreases(g_size + 20 - pnt)", "VC_WALK")}})
    for n, e, fn in (("find", "h_find", "findfield"), ("flex", "h_flex", "findfield_flex"))]
