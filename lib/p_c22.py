def run(c):
    c.env["ASAN_OPTIONS"] += ":max_malloc_fill_size=4000000"     # stale memory shows
    for v, exe in zip(("san", "rel"), c.build_all([("san", "model.cc", {}), ("rel", "model.cc", {})])):
        c.run_harness(exe, v)
    return ("creation histories over one to three databases (declarations, names sized around the room left, property and link "
            "updates, builtin defaults, large tables) with every node and name compared with a shadow at each table growth, periodically "
            "and at the end; builtin table and accessors compared with the documented table; distinct = distinct table states and graphs")
