from vclib import Unit
META = dict(
    title="The command line is obeyed in any order; the exit status tells how it went",
    statement="Each option has its effect whatever stands before or behind it: -O, -T, -C, -L, -S, -E and -N their mode, -A case sensitivity for the definitions too, -I adds its directories in order, -D defines a name as its value or 1, -V gives the text to assemble. The first file name is the input, the second the output, otherwise named after the input with bin. An unknown option, -V without text and a missing or unreadable input fail without assembling; no argument and -H show the help. Assembly starts afresh with the input's directory searched first; the first pass is followed, if anything is to be written, by the second pass, symbol table, output and listing, as asked for and in this order, each in an error session that is shown and closed. The exit status is the worst reported (warning 1, error 2, fatal 3), and fatal if the listing cannot be written.",
    forall="all argument lists of any length and order, modes and outcomes of the passes",
    why="The options combine in any order and the exit status depends on everything reported; no test checks either.",
    files=["main.cpp", "utils.cpp"], mechanism=[("options", "main.cpp main"), ("assembly", "main.cpp run_assembly"), ("status", "utils.cpp show_error, show_warning, show_fatal_error")],
    how="main's loop over the arguments by loop contract: an arbitrary argument in an arbitrary state has exactly its effect; run_assembly with every step by contract; the reporting functions by contract.",
    note="Deductive proof; the passes, writers, storage and C library by contract. Windows paths are left out; a file that could be opened is assumed to have a name shorter than PATH_MAX.")
K = dict(dfcc=False)
UNITS = [
    Unit("main", "c20.c", "h_main", functions=["main"], drop=["print_help_message", "run_assembly"], unwind=4, loops={"main.cpp": {
        ("main", 0): ("__CPROVER_assigns(curr_arg, mode, all_opcodes, use_colors, include_dirs, case_sensitive, is_storage_initialized, input_contents, curr_input_file, output_filename, __CPROVER_object_whole(argv), g_arg, g_next, g_len2, g_param, g_arg0, g_argc, g_mode0, g_ops0, g_col0, g_cs0, g_sto0, g_inc0, g_in0, g_out0, g_started, g_appended, g_added, g_set, g_inits, g_comm, g_toks, g_eq, g_noname, g_blank, g_n, g_def, g_freed, g_cs1, g_line) __CPROVER_loop_invariant(ARGINV) __CPROVER_decreases(argc - curr_arg)", "arg_start(curr_arg, argc, argv, case_sensitive, is_storage_initialized);"),
        ("main", 1): "__CPROVER_assigns(p, include_dirs, g_toks, g_appended) __CPROVER_loop_invariant(p == (g_toks >= 0 ? (char *)g_tokbuf : (char *)0) && g_toks >= -1 && g_toks <= 100 && g_appended >= 0 && g_appended <= 100 && g_appended + (p != 0) + (g_toks > 0 ? g_toks : 0) == g_n) __CPROVER_decreases(g_toks + 1)",
    }}, **K),
    Unit("run", "c20.c", "h_run", defs=["VC_RUN"], functions=["run_assembly"], drop=["print_help_message", "main"], unwind=4, native=False, loops={"main.cpp": {
        ("run_assembly", 0): "__CPROVER_assigns(i) __CPROVER_loop_invariant(i >= g_sl && i < g_ln && i >= 0) __CPROVER_decreases(i)"}}, **K),
    Unit("show", "c20.c", "h_show", defs=["VC_SHOW", "VC_BODY_show_error", "VC_BODY_show_warning", "VC_BODY_show_fatal_error"], functions=["show_error", "show_warning", "show_fatal_error"], unwind=4, native=False, **K),
]
