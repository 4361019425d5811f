from vclib import Unit
LEVEL = "proof"
META = dict(
    title="Operand values are encoded with the right width and range, or diagnosed",
    statement="For every operand value, operand kind, instruction address and size, the bytes written for an operand are its two's-complement value truncated to the kind's width (1, 2 or 3 bytes, least significant first), the distance from the end of the instruction for a relative jump, the bit number in bits 3 to 5 over the base opcode for a bit operand, or the restart opcode for a restart address. "
              "An error is reported exactly when a relative jump, index offset, bit number or restart address is out of range (and then a zero operand, or nothing for a restart, is written), and a truncation warning exactly when an 8-bit value is outside -128..255 or a 16-bit value in eZ80 mode is outside -32768..65535. "
              "An accepted relative jump always lands on its target.",
    forall="all 2^32 values of the operand and of the address counter, all seven operand kinds, Z80 and eZ80 mode",
    why="The tests encode a handful of operands per kind; boundary values and address wrap-around need every value.",
    files=["pass_two.cpp"], mechanism=[("operand writer", "pass_two.cpp write_arg")],
    how="the postconditions of write_arg (length, each byte, frame around the operand, diagnostics) are discharged for all inputs; write_out is represented by its contract; the relative-jump landing lemma is checked over the postcondition.",
    note="Deductive proof, all inputs; assumed: the diagnostics functions only record, write_out's contract (verified in C29).")
TRUSTED = ["SetLastSPASMError/SetLastSPASMWarning/show_error only record a diagnostic (assumed contract in lib/base.h; real bodies: C20)"]
UNITS = [
    Unit("write_arg", "c01.c", "h_write_arg", enforce="write_arg", replace=["write_out"], unwind=10),
]
