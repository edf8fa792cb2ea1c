def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "der.cc", {}), ("rel", "der.cc", {})])):
        c.run_harness(exe, v)
    return ("values dense around every change of encoding width, written and read back through every DER/BER primitive "
            "(pointer and by-value) in exact-size heap blocks and compared byte for byte with an X.690 reference encoder; "
            "distinct = distinct encodings")
