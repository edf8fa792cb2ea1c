def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "db.cc", {}), ("rel", "db.cc", {})])):
        c.run_harness(exe, v)
    return ("generated databases (declaration graphs with cycles, attributes, archives, unreachable nodes, odd names; any creation order and name sharing) "
            "serialised, compared byte for byte with an independent serialiser, loaded from exact-size blocks and files, compared declaration by "
            "declaration and serialised again; every capacity and every proper prefix; damaged magic, builtin boundary and counts; distinct = distinct images")
