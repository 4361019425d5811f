from vclib import Unit
LEVEL = "proof"
META = dict(
    title="Source text scanners stop at the right character and never leave the text",
    statement="Skipping blanks stops at the first character that is not a blank on the same line, skipping a name at the first character that cannot be part of a name, skipping to the next line just behind the first line break (LF, CR or CR LF), and skipping to the end of a line at its first line break or unquoted semicolon. "
              "Skipping an expression stops at the first delimiter, comment, statement separator or line break that is outside double-quoted strings, character literals and escapes; finding the next statement goes just behind that terminator. "
              "Every one of these scans terminates and stays inside the text, for text of any length and content.",
    forall="all texts of any length and content, all start positions, all delimiter sets of up to four characters",
    why="The tests scan a few well-formed source lines; the guarantee is about every text, including unterminated strings, lone quotes and missing final newlines.",
    files=["utils.cpp"], mechanism=[("scanners", "utils.cpp skip_whitespace, skip_to_name_end, skip_to_next_line, skip_to_line_end, next_expr, next_code_line, skip_to_code_line_end")],
    how="each scanner's contract (stays inside the text, stop character, every skipped character via a universally chosen witness position) is discharged with loop invariants and variants; the exact stop position of an expression is additionally compared with a reference in the bounded and native configurations.",
    note="Unbounded proof of memory safety, termination and stop conditions; exact expression ends (quote handling) and line_has_word/mystrpbrk bounded. Texts with a doubled backslash inside a quoted string are outside the line-end clause.")
BASE = "PTR_OK(ptr) && IMP(g_k >= g_o && g_k < OFF(ptr), %s)"
def scan(fn, cond):
    return {"utils.cpp": {(fn, 0): "__CPROVER_assigns(ptr) __CPROVER_loop_invariant(%s) __CPROVER_decreases(g_n - OFF(ptr))" % (BASE % cond)}}
# termination although the scan steps back after a lone quote: the last quote only moves forward, and each quote is left once
NE = ("__CPROVER_assigns(ptr, in_string, in_escape, in_quote, glq) __CPROVER_loop_invariant(PTR_OK(ptr) && in_quote >= 0 && in_quote <= 2 "
      "&& glq >= g_o - 1 && glq < OFF(ptr) && IMP(in_quote > 0, glq >= g_o && OFF(ptr) - glq >= 3 - in_quote)) "
      "__CPROVER_decreases(g_n - glq, (in_quote > 0), g_n - OFF(ptr))",
      "if (!in_escape && !in_string && in_quote == 0 && *ptr == '\\'') glq = OFF(ptr);")
NL = {("skip_to_next_line", 0): "__CPROVER_assigns(ptr) __CPROVER_loop_invariant(PTR_OK(ptr)) __CPROVER_decreases(g_n - OFF(ptr))"}
B = dict(defs=["VC_BOUND=6"], unwind=9)
T = ["strings are shorter than 2^31-16 bytes (the code itself uses int lengths)"]
UNITS = [
    Unit("skip_whitespace", "c14.c", "h_ws", enforce="skip_whitespace", loops=scan("skip_whitespace", "sp_blank(CH(g_k))"), bound=B, assumes=T),
    Unit("skip_to_name_end", "c14.c", "h_name", enforce="skip_to_name_end", loops=scan("skip_to_name_end", "sp_name(CH(g_k))"), bound=B, functions=["skip_to_name_end", "is_name_char"], replace=["is_name_char"]),
    Unit("skip_to_next_line", "c14.c", "h_nextline", enforce="skip_to_next_line", loops=scan("skip_to_next_line", "CH(g_k) != 0 && CH(g_k) != '\\n' && CH(g_k) != '\\r'"), bound=B),
    Unit("skip_to_line_end", "c14.c", "h_lineend", enforce="skip_to_line_end", bound=B,
         loops={"utils.cpp": {("skip_to_line_end", 0): ("__CPROVER_assigns(ptr, in_escape, in_quotes, gq, ge, gdbl, gi) __CPROVER_loop_invariant(" +
                              BASE % "CH(g_k) != 0 && CH(g_k) != '\\n' && CH(g_k) != '\\r'" + " && IMP(!gdbl, gi == OFF(ptr) && in_quotes == gq && in_escape == ge) && gi >= g_o && gi <= OFF(ptr)) __CPROVER_decreases(g_n - OFF(ptr))",
                              "sp_line_step();")}}),
    Unit("is_end_of_code_line", "c14.c", "h_eocl", dfcc=False, functions=["is_end_of_code_line", "is_name_char", "is_arg"]),
    Unit("next_expr", "c14.c", "h_next_expr", enforce="next_expr", replace=["mystrpbrk", "skip_whitespace", "is_end_of_code_line"], bound=dict(defs=["VC_BOUND=5"], unwind=8),
         loops={"utils.cpp": {("next_expr", 0): NE, ("next_expr", 1): NE}}, assumes=["mystrpbrk/strchr: first character in the set iff the result is the start of the text (bounded check in unit pbrk)"]),
    Unit("next_code_line", "c14.c", "h_next_code_line", enforce="next_code_line", replace=["next_expr"], loops={"utils.cpp": NL}, functions=["next_code_line", "skip_to_next_line"], bound=dict(defs=["VC_BOUND=5"], unwind=8)),
    Unit("line_has_word", "c14.c", "h_line_has_word", kind="bounded", dfcc=False, defs=["VC_BOUND=6"], unwind=14, bound_note="texts up to 6 characters", functions=["line_has_word"]),
    Unit("mystrpbrk", "c14.c", "h_pbrk", kind="bounded", dfcc=False, defs=["VC_BOUND=5"], unwind=8, unwindset=["memset.0:1025"], bound_note="texts up to 5 characters, sets up to 4", functions=["mystrpbrk"]),
    Unit("skip_to_code_line_end", "c14.c", "h_code_line_end", enforce="skip_to_code_line_end", replace=["next_code_line", "is_end_of_code_line"], bound=dict(defs=["VC_BOUND=5"], unwind=8),
         loops={"utils.cpp": {("skip_to_code_line_end", 0): "__CPROVER_assigns(next) __CPROVER_loop_invariant(PTR_OK(next)) __CPROVER_decreases(OFF(next))"}}),
]
