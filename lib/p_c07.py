def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "query.cc", {}), ("rel", "query.cc", {})])):
        c.run_harness(exe, v)
    return ("every list query on every declaration of generated, loaded and merged databases, with right and wrong kinds, no buffer, and "
            "capacities 0..n+3 in exact-size slot arrays pre-filled with a pattern, compared with the member list of the graph, repeated, "
            "with the database compared before and after; distinct = distinct graphs")
