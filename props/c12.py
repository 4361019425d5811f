from vclib import Unit
META = dict(
    title="Macro arguments belong to their call and shadow other names in it",
    statement="A macro call makes a new, innermost set of arguments: the n-th parameter is bound to the n-th argument, evaluated where it can be unless the parameter is literal ('@'); surplus arguments are left out with a warning, missing ones are undefined. A name is looked up in the argument sets from the innermost call outwards, then among the global definitions (in these alone if asked), in upper case unless case matters; labels have a table of their own. Removing a call's set takes out exactly that set and releases it once, with its definitions.",
    forall="any number of nested calls, arguments and parameters (up to 16), any contents of the tables",
    why="Nesting and shadowing must be right at every depth; tests nest two calls at most.",
    files=["storage.cpp", "utils.cpp"], mechanism=[("argument sets", "storage.cpp add_arg_set, add_arg, remove_arg_set"), ("lookup", "storage.cpp search_defines, search_local_defines, search_labels"), ("binding", "utils.cpp parse_args")],
    how="loop contracts over argument lists of any length (each node chosen anew when reached) and over any number of arguments; tables by the contract of hash_lookup/hash_insert.",
    note="Deductive proof. The hash table (std::map in hash.cpp) is trusted. __LINE and __FILE are left out of the lookup's contract.")
S = dict(dfcc=False)
LC = "__CPROVER_assigns(curr_arg_set, result, X, g_left, g_found) __CPROVER_loop_invariant(g_left >= 0 && g_left <= __CPROVER_loop_entry(g_left) && curr_arg_set == (g_left ? &X : 0) && g_found == 0 && result == 0) __CPROVER_decreases(g_left)"
L2 = "__CPROVER_assigns(curr_arg_set, result, X, g_left, g_found) __CPROVER_loop_invariant(curr_arg_set == __CPROVER_loop_entry(curr_arg_set) && (curr_arg_set == 0 || (g_found != 0 && curr_arg_set == &X)))"
L3 = "__CPROVER_assigns(fn_ptr, buf_ptr, __CPROVER_object_whole(fn_buf)) __CPROVER_loop_invariant(0)"
P = "g_i >= 0 && g_i <= g_n && g_added >= 0 && g_added <= g_def.num_args && num_args == g_added && g_dns == 0"
UNITS = [
    Unit("search", "c12.c", "h_search", loops={"storage.cpp": {("search_local_defines", 0): (LC, "cell();"), ("search_defines", 0): (LC, "cell();")}}, unwind=3, functions=["search_defines", "search_local_defines", "search_labels"], drop=["set_define"], **S),
    Unit("argument", "c12.c", "h_add", functions=["add_arg"], **S),
    Unit("set", "c12.c", "h_set", functions=["add_arg_set", "remove_arg_set"], **S),
    Unit("bind", "c12.c", "h_parse", dfcc=False, defs=["VC_PARSE"], unwind=18, functions=["parse_args"], drop=["extract_arg_string", "eval", "skip_whitespace", "is_end_of_code_line"],
         loops={"utils.cpp": {
             ("parse_args", 0): "__CPROVER_assigns(ptr, word, num_args, g_i, g_took, g_added, g_dns, g_dws, g_evs, g_dupk, g_islit, g_warned, g_last, gh, __CPROVER_object_whole(&context)) __CPROVER_loop_invariant(" + P + " && ptr == g_text + 2 && g_took == 0 && g_warned == 0 && g_last == 0 && g_added == g_i && gh.warn == 0 && gh.err == 0) __CPROVER_decreases(g_n - g_i)",
             ("parse_args", 1): "__CPROVER_assigns(ptr, g_i, g_took, g_last, g_dns, g_dws, g_evs, g_dupk, __CPROVER_object_whole(&context)) __CPROVER_loop_invariant(g_i >= 0 && g_i <= g_n && g_took == 0 && g_dns == 0 && g_last == 0 && g_warned == 1 && ptr == g_text + 2) __CPROVER_decreases(g_n - g_i)",
             ("parse_args", 2): "__CPROVER_assigns(num_args, g_added, g_dns, g_dws, g_islit, g_took) __CPROVER_loop_invariant(" + P + " && g_took == 0) __CPROVER_decreases(g_def.num_args - g_added)",
         }}),
]
