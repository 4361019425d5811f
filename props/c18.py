from vclib import Unit
META = dict(
    title="Linked lists keep their nodes, order and data",
    statement="Appending puts a new node at the end, prepending at the start and inserting directly after the given node; removing takes out exactly the given node (and nothing if it is not in the list), and freeing releases every node once, with its data exactly when asked for. All other nodes keep their data and order.",
    forall="lists of any length, any position",
    why="Include directories, macro arguments and diagnostics all live in these lists; tests only build short ones.",
    files=["list.cpp"], mechanism=[("lists", "list.cpp list_append, list_prepend, list_insert, list_remove, list_free")],
    how="loop contracts over lists of symbolic length: the i-th node is the i-th element of a block, 'linked in order' is instantiated where a loop reads a node, and a witness node states the frame.",
    note="Deductive proof for lists of any length (up to 1,000,000 nodes). The nodes of the list are modelled as distinct elements of one block.")
INV = "SAMEOBJ(curr_node, g_nodes) && g_i >= 0 && g_i < g_n && curr_node == &g_nodes[g_i] && g_nodes[g_i].next == (g_i + 1 < g_n ? &g_nodes[g_i + 1] : 0)"
UNITS = [
    Unit("append", "c18.c", "h_append", dfcc=False, flags=["--arrays-uf-always"], functions=["list_append"], bound=dict(defs=["VC_BOUND=4"], unwind=7),
         loops={"list.cpp": {("list_append", 0): ("__CPROVER_assigns(curr_node, g_i) __CPROVER_loop_invariant(" + INV + ") __CPROVER_decreases(g_n - g_i)", "g_i++; LINKED(g_i);")}}),
    Unit("prepend", "c18.c", "h_prepend", dfcc=False, flags=["--arrays-uf-always"], functions=["list_prepend", "list_insert"]),
    Unit("remove", "c18.c", "h_remove", dfcc=False, flags=["--arrays-uf-always"], functions=["list_remove"], bound=dict(defs=["VC_BOUND=4"], unwind=7),
         loops={"list.cpp": {("list_remove", 0): ("__CPROVER_assigns(curr_node, g_i) __CPROVER_loop_invariant(g_i >= 0 && g_i <= g_n && (g_i == g_n ? curr_node == 0 : " + INV + ") && (g_rm < 0 || g_i < g_rm) && g_rm != 0) __CPROVER_decreases(g_n - g_i)", "g_i++; LINKED(g_i);")}}),
    Unit("free", "c18.c", "h_free", dfcc=False, defs=["VC_FREE"], native=False, functions=["list_free", "list_free_node"], bound=dict(defs=["VC_BOUND=3"], unwind=6),
         loops={"list.cpp": {("list_free", 0): "__CPROVER_assigns(curr_node, X, g_left, g_datafreed, g_cbs) __CPROVER_loop_invariant(g_left >= 0 && curr_node == (g_left ? &X : 0) && X.next == (g_left > 1 ? &X : 0) && (X.data == 0 || X.data == g_data) && g_datafreed == 0 && g_cbs == 0) __CPROVER_decreases(g_left)"}}),
]
