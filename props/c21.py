from vclib import Unit
META = dict(
    title="Intel HEX output is exactly the program, with right addresses and checksums",
    statement="The HEX text written for .hex files and applications (.8xk) holds every byte of the program once and in order, in records of up to 32 bytes; every 16 KB a record with the page number comes first and addresses start at the page's base again; each record's length, address and checksum are right; one end record closes the file.",
    forall="all program sizes up to the output buffer's 8 MB and all contents",
    why="Calculators and tools reject a file with one wrong record; partial records, page borders and page numbers above 255 occur only for particular sizes.",
    files=["export.cpp"], mechanism=[("records", "export.cpp intelhex")],
    how="intelhex with contracts on its page, record and byte loops; each record written is checked against the specification from the position reached.",
    note="Deductive proof. printf conversions are trusted.")
UNITS = [
    Unit("hex", "c21.c", "h_hex", functions=["intelhex"], drop=["siggen", "makeapp", "makeprgm", "write_file", "alphanumeric"], unwind=4, dfcc=False, flags=["--arrays-uf-always"],
         loops={"export.cpp": {
             ("intelhex", 0): "__CPROVER_assigns(page, bpnt, ci, temp, i, address, chksum, outbuf, g_sum, g_at, g_rec, g_page) __CPROVER_loop_invariant(bpnt >= 0 && bpnt <= size && size == g_size && buffer == g_buf && g_at == bpnt && g_rec == g_at && g_sum == 0 && g_ended == 0 && (bpnt == size ? page == (size + 16383) >> 14 : (bpnt & 16383) == 0 && page == bpnt >> 14) && g_page == page) __CPROVER_decreases(size - bpnt)",
             ("intelhex", 1): "__CPROVER_assigns(bpnt, ci, temp, i, address, chksum, outbuf, g_sum, g_at, g_rec) __CPROVER_loop_invariant(i <= 512 && bpnt >= 0 && bpnt <= size && g_at == bpnt && g_rec == g_at && g_sum == 0 && g_page == page && page >= 1 && page <= 489 && bpnt <= 16384 * page && (bpnt == size ? bpnt > 16384 * (page - 1) && bpnt <= 16384 * page : bpnt == 16384 * (page - 1) + 32 * (int)i) && (bpnt == size || address == g_base + 32 * i)) __CPROVER_decreases(512 - i)",
             ("intelhex", 2): ("__CPROVER_assigns(ci, temp, bpnt, chksum, outbuf, g_sum) __CPROVER_loop_invariant(bpnt >= g_at && bpnt <= size && bpnt - g_at <= 32 && ci == 2 * (unsigned)(bpnt - g_at) && chksum == (unsigned char)((address >> 8) + address + g_sum) && (!(g_w >= 0 && g_w < bpnt - g_at) || (outbuf[2 * (g_w & 31)] == HEXD(g_buf[g_at + g_w] >> 4) && outbuf[2 * (g_w & 31) + 1] == HEXD(g_buf[g_at + g_w] & 15)))) __CPROVER_decreases(size - bpnt)", "g_sum += g_buf[bpnt];"),
         }}),
]
