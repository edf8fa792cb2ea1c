def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "hashmap.cc", dict(lib=False)), ("rel", "hashmap.cc", dict(lib=False))])):
        c.run_harness(exe, v)
    return ("random operation histories on up to three maps (9 key/value/predicate instantiations, 8 hashers from perfect to all-colliding, initial sizes "
            "1..1024) with sizes, contents, iteration, returned iterators and comparisons checked against std::map after every operation and allocated "
            "bytes checked at the end, and all insert/erase sequences of length 7 over three keys of one probe chain; distinct = distinct histories")
