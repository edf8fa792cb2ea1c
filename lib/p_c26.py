def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "resources.cc", {}), ("rel", "resources.cc", {})])):
        c.run_harness(exe, v)
    return ("operations (create, load, refuse, save, query, print, hash, merge, decode, encode, identifiers, container histories) repeated under an allocation meter that sees every "
            "malloc and free of the process: what lives before and after, and the most that lives at once against the size of the data; distinct = distinct operations and peaks")
