def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "hostile.cc", {}), ("rel", "hostile.cc", {})])):
        c.run_harness(exe, v)
    return ("damaged, truncated, over-long, wrongly tagged and random inputs in heap blocks of exactly their size, given to every "
            "ASN.1 reader and judged by a reference decoder (must accept / must refuse / either, value and bytes consumed) under "
            "ASan+UBSan and in the release configuration; distinct = distinct inputs")
