def run(c):
    exes = c.build_all([("san", "hash.cc", {}), ("relc", "hash.cc", {})])
    sums = []
    for v, exe in zip(("san", "relc"), exes):
        before = c.stats.get("hash_sum", 0)
        c.run_harness(exe, v)
        sums.append(c.stats.get("hash_sum", 0) - before)
    # the same declarations hashed by other processes, another compiler and another build give the same hashes
    if not c.replay and not c.viols and sums[0] != sums[1] and not any(k.startswith("budget_cut") for k in c.stats):
        c.add_violation("process", "sum", "hashes of the same databases differ between processes: %x %x" % tuple(sums), "")
    return ("generated graphs hashed in several creation orders, after loading and after merging; acyclic declarations judged by a bijection "
            "between an independent content identity and the hash over everything seen; single mutations of name, kind, properties, value, "
            "attributes, member order, members and member types must change the hash of the declaration and the root and of nothing else "
            "that does not reach it; distinct = distinct roots")
