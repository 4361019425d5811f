from vclib import Unit
META = dict(
    title="Labels and definitions are stored once, under their name, with their value",
    statement="Adding a label stores it with its value, file and line, or gives an existing label the new value, with a warning if it differs; it is an error, changing nothing, if a definition has that name, and nothing is added while code is only counted. Adding a definition needs a name, is an error if a label has it, and stores an empty definition or gives back the one made before, without its parameters but with its contents. Setting contents stores exactly the text given; in a redefinition the definition's own name in the text is replaced by the old contents. Removing a definition removes it alone. Names are in upper case unless case matters.",
    forall="all names, values, tables and parameter counts",
    why="Every symbol of a program goes through here; tests define a handful of names once.",
    files=["storage.cpp"], mechanism=[("labels", "storage.cpp add_label"), ("definitions", "storage.cpp add_define, set_define, remove_define")],
    how="contracts of the storage functions over an arbitrary table state, with search and hash functions by contract and ownership of every name tracked; on the unmodified code, histories of six operations against a model.",
    note="Deductive proof. The hash table (std::map) is trusted; expand_expr by contract.")
K = dict(dfcc=False, unwind=18)
UNITS = [
    Unit("label", "c33.c", "h_label", functions=["add_label"], drop=["search_defines", "search_labels", "search_local_defines"], **K),
    Unit("define", "c33.c", "h_define", functions=["add_define"], drop=["search_defines", "search_labels", "search_local_defines"], **K),
    Unit("remove", "c33.c", "h_remove", functions=["remove_define"], drop=["search_defines", "search_labels", "search_local_defines"], **K),
    Unit("contents", "c33.c", "h_set", defs=["VC_SET"], functions=["set_define"], drop=["search_defines", "search_labels", "search_local_defines", "add_define"], **K),
]
