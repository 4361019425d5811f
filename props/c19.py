from vclib import Unit
META = dict(
    title="Diagnostics: none is lost or repeated, sessions nest, the exit status tells",
    statement="An error or warning reported is recorded once, in the innermost open session, with its code, kind, file, line and text. Closing a session discards exactly its diagnostics; replaying an inner one first hands exactly these to the session outside; replaying the outermost session prints each of them once, oldest first (for the final replay without the errors that are not final: undefined or forward labels and recursion), its annotation before it, and raises the exit status to warning or error. Whether a session holds a fatal error or a given code, and how many diagnostics, is answered for exactly its own. Warnings are never fatal, and a fatal error left in the outermost session ends the program with the fatal exit status.",
    forall="all sequences of diagnostics and sessions of any length", over=["inputs", "histories"],
    why="Expressions and macros are evaluated speculatively in nested sessions; a lost or duplicated message depends on the history.",
    files=["errors.cpp"], mechanism=[("sessions", "errors.cpp StartSPASMErrorSession, ReplaySPASMErrorSession, CleanupSPASMErrorSession, EndSPASMErrorSession"), ("recording", "errors.cpp SetLastSPASMProblem"), ("printing", "errors.cpp PrintSPASMError, ReplayErrorRecursive")],
    how="contracts on every function of errors.cpp; walks over the list by loop contracts with an arbitrary node per round; the recursive replay by its own contract.",
    note="Deductive proof for lists of any length. printf, strdup and the console colours are trusted; the innermost session's diagnostics are assumed to be the front of the list (the invariant that recording and replaying maintain, tested natively).")
K = dict(dfcc=False)
def loop(f, assigns, inv, ghost):
    return {"errors.cpp": {(f, 0): ("__CPROVER_assigns(pList, X, E, g_left, g_cnt, g_any, g_expect, g_freed, g_nodes%s) __CPROVER_loop_invariant(ISX%s) __CPROVER_decreases(g_left)" % (assigns, inv), ghost)}}
def U(n, e, d, fns, lp=None, **k):
    return Unit(n, "c19.c", e, defs=[d] + k.pop("defs", []), functions=fns, loops=lp, native=k.pop("native", False), **dict(K, **dict(dict(unwind=4), **k)))
UNITS = [
    U("count", "h_count", "VC_COUNT", ["GetSPASMErrorSessionErrorCount"], drop=["ReplayErrorRecursive"], lp=loop("GetSPASMErrorSessionErrorCount", ", nCount", " && nCount == g_cnt && g_left <= 100000000 && g_cnt >= 0 && g_cnt <= 100000000 - g_left", "NEXT g_cnt += E.dwErrorCode != 0;"), native=True),
    U("fatal", "h_fatal", "VC_COUNT", ["IsSPASMErrorSessionFatal"], drop=["ReplayErrorRecursive"], lp=loop("IsSPASMErrorSessionFatal", ", fIsFatal", " && !fIsFatal && g_any == 0", "NEXT g_any = FATAL(&E);")),
    U("isin", "h_isin", "VC_COUNT", ["IsErrorInSPASMErrorSession", "IsSPASMErrorFatal"], drop=["ReplayErrorRecursive"], lp=loop("IsErrorInSPASMErrorSession", "", " && g_any == 0", "NEXT g_any = E.dwErrorCode == (DWORD)g_code;")),
    U("replay", "h_replay", "VC_COUNT", ["ReplaySPASMErrorSession"], drop=["ReplayErrorRecursive"], lp=loop("ReplaySPASMErrorSession", "", " && E.nSession == g_expect", "NEXT CHECK(E.nSession == g_n, \"of the session\"); g_expect = g_n - 1;")),
    U("print1", "h_print1", "VC_PRINT1", ["ReplayErrorRecursive"], recstub=["ReplayErrorRecursive"], drop=["PrintSPASMError"]),
    U("clean", "h_clean", "VC_CLEAN", ["CleanupSPASMErrorSession", "FreeErrorInstance"], loop("CleanupSPASMErrorSession", ", fatalErrorCount, g_ErrorList, g_run", " && g_freed == g_nodes && g_freed == g_run && (g_run == 0 || g_run == 1) && (g_run || g_left == __CPROVER_loop_entry(g_left)) && (!g_run || g_left < __CPROVER_loop_entry(g_left)) && g_ErrorList == (errorlist_t *)pList && fatalErrorCount == g_cnt && g_left <= 100000000 && g_cnt >= 0 && g_cnt <= 100000000 - g_left", "NEXT ASSUME(E.lpszFileName != (char *)&E && E.lpszErrorText != (char *)&E && E.lpszAnnotation != (char *)&E); g_run = 1; g_freed = g_nodes = 0; g_cnt += FATAL(&E);")),
    U("end", "h_end", "VC_END", ["EndSPASMErrorSession"], drop=["CleanupSPASMErrorSession"]),
    U("print", "h_print", "VC_END", ["PrintSPASMError"], drop=["CleanupSPASMErrorSession"]),
    U("note", "h_note", "VC_NOTE", ["AddSPASMErrorSessionAnnotation"], drop=["SetLastSPASMProblem"], lp=loop("AddSPASMErrorSessionAnnotation", "", " && g_freed <= 1 && (g_any == 0 || (g_nodes == g_expect && g_freed == g_cnt && (!g_expect || E.lpszAnnotation == g_note)))", "NEXT g_freed = g_nodes = 0; E = g_fresh(); g_any = 1; g_expect = E.nSession >= g_n; g_cnt = g_expect && E.lpszAnnotation != 0;")),
    U("set", "h_set", "VC_SET", ["SetLastSPASMProblem", "SetLastSPASMError", "SetLastSPASMWarning", "AllocErrorInstance"], defs=["VC_BODY_SetLastSPASMError", "VC_BODY_SetLastSPASMWarning"], unwind=100),
]
