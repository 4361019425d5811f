from vclib import Unit
LEVEL = "proof"
META = dict(
    title="The Z80 instruction table is the Z80 instruction set",
    statement="Every row of the built-in Z80 table has exactly the bytes, operand fields (kind and position), trailing byte and instruction length that the Z80 architecture defines for the mnemonic and operands the row names (documented and commonly used undocumented forms). "
              "Every documented Z80 machine instruction is produced by some row, all rows are on the search list, and no row with a number operand hides a later, more specific row of the same mnemonic.",
    forall="all rows of the built-in Z80 table, all machine instructions of the Z80",
    why="The tests assemble a small part of the roughly 700 rows; a wrong byte in one row is silent.",
    files=["opcodes.cpp"], mechanism=[("Z80 instruction table", "opcodes.cpp opcode_list")],
    how="the table is data, so its invariant is a data-structure contract: an independent encoder written from the architecture's bit fields (harness/optab.in.h) is the specification of each row; CBMC discharges it for every row of the table in the current source by constant propagation (the loops run over the concrete table to its end: no bound, no symbolic input).",
    note="Finite exhaustive discharge over all table rows. Assumed: the independent encoder is the architecture; rows are turned into bytes as C02 proves.")
def units(defs):
    F = ["--object-bits", "12"]
    G = F + ["--no-standard-checks"]
    return [Unit("rows_ld", "c03.c", "h_rows", unwind=400, dfcc=False, flags=G, defs=defs + ["VC_LO=0", "VC_HI=1"], timeout=300, functions=["opcode table rows"]),
            Unit("rows_a", "c03.c", "h_rows", unwind=400, dfcc=False, flags=G, defs=defs + ["VC_LO=1", "VC_HI=16"], timeout=300, functions=["opcode table rows"], native=False),
            Unit("rows_b", "c03.c", "h_rows", unwind=400, dfcc=False, flags=G, defs=defs + ["VC_LO=16", "VC_HI=26"], timeout=300, functions=["opcode table rows"], native=False),
            Unit("rows_c", "c03.c", "h_rows", unwind=400, dfcc=False, flags=G, defs=defs + ["VC_LO=26", "VC_HI=1000"], timeout=300, functions=["opcode table rows"], native=False),
            Unit("list", "c03.c", "h_list", unwind=400, dfcc=False, flags=G, defs=defs, functions=["opcode table list"]),
            Unit("order", "c03.c", "h_order", unwind=400, dfcc=False, flags=G, defs=defs, functions=["opcode table row order"]),
            Unit("complete", "c03.c", "h_cover", unwind=400, dfcc=False, flags=G, defs=defs, timeout=300, functions=["opcode table completeness"])]
UNITS = units([])
