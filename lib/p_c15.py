def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "writers.cc", {}), ("rel", "writers.cc", {})])):
        c.run_harness(exe, v)
    return ("each of 35 writers with boundary-dense values at every capacity from 0 to one more than needed (exact heap blocks under ASan, guard bytes "
            "in the release build), writers filling one buffer, and operation sequences on buffers compared with a byte array and cursor; distinct = "
            "distinct (writer, encoding) pairs and distinct operation sequences")
