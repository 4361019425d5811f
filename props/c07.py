from vclib import Unit
LEVEL = "proof"
META = dict(
    title="Expressions are evaluated strictly left to right with the documented operators",
    statement="For every expression, the value is that of applying the operators + - * / % ^ & | << >> && || < > <= >= == = != from left to right without precedence to 32-bit two's complement operands, each operand optionally preceded by one ~, - or +, and a parenthesised operand standing for the value of the expression inside. "
              "Evaluation succeeds exactly when every operand has a value, an operator stands between any two operands, no operand is missing after an operator and no division or remainder is by zero or overflows; otherwise an error is reported and the value is zero. A two-character operator is never read as two one-character ones.",
    forall="all expression texts of any length, all operand values, all nesting levels within the recursion limit; shift amounts 0 to 31; texts without a surplus closing parenthesis",
    why="Tests evaluate a few expressions; operator confusion, sign handling or a misplaced position shows only on particular combinations.",
    files=["parser.cpp"], mechanism=[("expression evaluator", "parser.cpp parse_num_full"), ("operator table", "parser.cpp MathDefs")],
    how="a ghost automaton (sp_operand, sp_apply) reads the same text independently and keeps the left-to-right value; the loop invariant ties the evaluator's position, running value and pending operator to it and is proved inductive for texts of any length; the recursive call and parse_single_num are represented by contracts (executable stubs that check how they are called); the scanners' contracts are those proved in C14.",
    note="Deductive proof of the loop for all texts; * / % only bounded (value range) because SAT does not decide 32-bit multiplier equivalence. Assumed: wrapping arithmetic, operand contract.")
LOOPS = {"parser.cpp": {("parse_num_full", 0): (
    "__CPROVER_assigns(expr, total, last_num, last_op, invert_lastnum, neg_lastnum, *value, g, gh, parser_forward_ref_err, parse_depth) "
    "__CPROVER_loop_invariant(SAMEOBJ(expr, g_s) && OFF(expr) >= 0 && OFF(expr) <= g_n && OFF(expr) == g.pos && total == g.acc && MOP(last_op) == g.op && (g.op != 0 || last_op == M_NONE) && g.fail == 0 && g.err == 0 && g.done == 0 && g.miss == 0 "
    "&& gh.err == 0 && gh.showwarn == 0 && parse_depth == 1 && g.depth == depth) __CPROVER_decreases(g_n - OFF(expr))",
    "sp_operand(expr, total);")}}
K = dict(unwind=22, dfcc=False, drop=["parse_single_num"], recstub=["parse_num_full"], solver="cadical", functions=["parse_num_full"], preunwind=21, loops=LOOPS, timeout=400)
F = ["--no-signed-overflow-check", "--no-undefined-shift-check"]
UNITS = [
    Unit("parse_num_full", "c07.c", "h_expr", flags=F, defs=["VC_OPSEL=(g.op != O_MUL && g.op != O_DIV && g.op != O_MOD)"], **K,
         assumes=["32-bit machine arithmetic wraps (signed overflow in the evaluator is taken as two's complement)", "shift amounts are 0 to 31", "the text has no surplus closing parenthesis"]),
    Unit("muldiv", "c07.c", "h_expr", kind="bounded", flags=F + ["--no-standard-checks"], native=False, defs=["VC_OPSEL=((g.op == O_MUL || g.op == O_DIV || g.op == O_MOD) && g.acc >= -300 && g.acc <= 300 && v >= -9 && v <= 9)"], **K,
         bound_note="* / %: left value -300..300, right value -9..9 (the solver does not decide 32-bit multiplier equivalence; the native search uses the full range), texts of every length"),
]
