from vclib import Unit
import c03
LEVEL = "proof"
META = dict(
    title="The eZ80 instruction table is the eZ80 instruction set",
    statement="Every row of the built-in eZ80 table has exactly the bytes, operand fields (kind and position), trailing byte and instruction length that the eZ80 architecture defines for the mnemonic and operands the row names. "
              "Every documented eZ80 machine instruction is produced by some row, all rows are on the search list, and no row with a number operand hides a later, more specific row of the same mnemonic.",
    forall="all rows of the built-in eZ80 table, all machine instructions of the eZ80",
    why="The tests assemble a small part of the roughly 900 rows; a wrong byte in one row is silent.",
    files=["opcodes_ez80.cpp"], mechanism=[("eZ80 instruction table", "opcodes_ez80.cpp opcode_list_ez80")],
    how=c03.META["how"], note=c03.META["note"])
UNITS = c03.units(["VC_EZ80"])
