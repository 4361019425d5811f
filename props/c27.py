from vclib import Unit
META = dict(
    title="Files are found in order, by portable names, and read whole and once",
    statement="A name with an absolute path that can be read is used as it is; any other file is the one in the first include directory, in order, that has it, and otherwise an error is reported and nothing is assembled or imported. Separators are written as the system's, all of them and nothing else changed. The extension of an output name is replaced, or added if the last part of the path has none. An imported file is copied into the output byte by byte, whole, and the program counter moves by its length. An included file is assembled once under its own name, its name is kept for later messages, and afterwards the including file, its line, macro state and place in the line are what they were.",
    forall="all names, lengths, positions of dots and separators, lists of directories, file contents and nestings",
    why="Which file is taken depends on every directory before it; the state to restore depends on what the included file does.",
    files=["utils.cpp", "preop.cpp"], mechanism=[("names", "utils.cpp change_extension, fix_filename, is_abs_path"), ("search", "preop.cpp full_path"), ("inclusion", "preop.cpp handle_preop_include, handle_preop_import")],
    how="contracts on the six functions; search, copying and scans by loop contracts; the file system, string library and nested pass by contract; the nested pass may leave any state behind.",
    note="Deductive proof. The C library's file and string functions are trusted; a file's readability is assumed not to change while it is looked for.")
K = dict(dfcc=False, unwind=4)
DU = ["skip_whitespace"]
DP = ["handle_preop_define", "handle_preop", "handle_preop_if", "do_if", "skip_until", "end_if", "parse_arg_defs"]
Q = "__CPROVER_assigns(i) __CPROVER_loop_invariant(i >= 0 && qs >= name && (qs - name) + i <= g_n && (qs - name) >= 0 && (qs - name) <= g_n && name[g_n] == 0) __CPROVER_decreases(g_n - i)"
UNITS = [
    Unit("extension", "c27.c", "h_ext", defs=["VC_UTILS"], functions=["change_extension"], drop=DU, **K),
    Unit("separators", "c27.c", "h_sep", defs=["VC_UTILS"], functions=["fix_filename"], drop=DU, native=False, loops={"utils.cpp": {("fix_filename", 0): "__CPROVER_assigns(sl, __CPROVER_object_whole(g_s)) __CPROVER_loop_invariant((sl == 0 || (SAMEOBJ(sl, g_s) && OFF(sl) >= 0 && OFF(sl) < g_n && *sl == '\\\\')) && g_s[g_n] == 0 && g_s[g_k] == (g_ch == '\\\\' && (sl == 0 || g_k < OFF(sl)) ? '/' : g_ch) && (sl != 0 || g_s[g_k] != '\\\\')) __CPROVER_decreases(sl == 0 ? 0 : g_n - OFF(sl))"}}, **K),
    Unit("absolute", "c27.c", "h_abs", defs=["VC_UTILS"], functions=["is_abs_path"], drop=DU, native=False, **K),
    Unit("search", "c27.c", "h_path", defs=["VC_PATH"], functions=["full_path"], drop=DP + ["handle_preop_include", "handle_preop_import"], native=False,
         loops={"preop.cpp": {("full_path", 0): ("__CPROVER_assigns(dir, full_path, X, g_left, g_cand, g_step, g_ok, g_held, g_ebs) __CPROVER_loop_invariant(DIRX && full_path == (g_cand ? (char *)g_path : (char *)0) && g_held == g_cand && g_ebs == 0 && g_ok == 0 && (g_step == 5 || g_cand == 0) && (g_cand == 0 || g_cand == 1)) __CPROVER_decreases(g_left)", "NEXTDIR")}}, **K),
    Unit("import", "c27.c", "h_import", defs=["VC_IMPORT"], functions=["handle_preop_import"], drop=DP + ["handle_preop_include", "full_path"], native=False,
         loops={"preop.cpp": {("handle_preop_import", 0): Q, ("handle_preop_import", 1): "__CPROVER_assigns(c, g_len, g_pend, g_c, g_out, program_counter) __CPROVER_loop_invariant(g_len >= 0 && g_pend == 0 && g_out >= 0 && g_len <= 1000000000 && g_out <= 1000000000 && g_out + g_len == __CPROVER_loop_entry(g_len) && program_counter == g_pc + (unsigned)g_out && g_open == 1) __CPROVER_decreases(g_len)"}}, **K),
    Unit("include", "c27.c", "h_include", defs=["VC_INCLUDE"], functions=["handle_preop_include"], drop=DP + ["handle_preop_import", "full_path"], native=False,
         loops={"preop.cpp": {("handle_preop_include", 0): ("__CPROVER_assigns(i, gh, g_i) __CPROVER_loop_invariant(gh.err == 0 && gh.showerr == 0 && g_i == i && i >= 0 && i <= g_n && name == g_nm && name[g_n] == 0 && (!(g_k < i) || g_kok)) __CPROVER_decreases(g_n - i)", "g_i = i + 1;"), ("handle_preop_include", 1): Q}}, **K),
]
