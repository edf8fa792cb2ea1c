def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "real.cc", {}), ("rel", "real.cc", {})])):
        c.run_harness(exe, v)
    return ("every sign x exponent x 159 mantissa shapes and random doubles are encoded, compared byte for byte with an X.690 reference "
            "encoder and decoded again; arbitrary REAL contents are decoded and compared with their exact value (x87 extended precision, "
            "one ulp where not representable); distinct = distinct doubles and distinct contents")
