def run(c):
    alt = dict(lib_extra=["-DUSE_UNALIGNED_ACCESSES=0"], extra=["-DUSE_UNALIGNED_ACCESSES=0"])
    exes = c.build_all([("san", "varint.cc", {}), ("rel", "varint.cc", {})])
    for v, exe in zip(("san", "rel"), exes):
        c.run_harness(exe, v)
    # the portable code path of the same sources
    exe = c.build("varint_portable", "rel", ["varint.cc"], **alt)
    c.run_harness(exe, "rel", family="le")
    return ("small values exhaustively and boundary-dense 64-bit values through LEB128, VLU and little-endian codecs (pointer and by-value, and "
            "the build without unaligned accesses) against reference encoders, with every truncation, out-of-range values and arbitrary bytes; "
            "distinct = distinct encodings and inputs")
