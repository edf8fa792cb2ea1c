def run(c):
    c.env["ASAN_OPTIONS"] += ":stack_trace_format=DEFAULT"
    for v, exe in zip(("san", "rel"), c.build_all([("san", "hostiledb.cc", {}), ("rel", "hostiledb.cc", {})])):
        c.run_harness(exe, v)
    return ("arbitrary bytes, damaged headers and counts, truncations, field changes, references rewired within range and tiny dense graphs over "
            "every tag, loaded from exact-size blocks; what is accepted must satisfy the bounds invariant and then go through every query, layout, "
            "hash, dump, statistics, serialise, reload and merge under ASan/UBSan; distinct = distinct accepted images")
