def run(c):
    for v, exe in zip(("tsan", "rel"), c.build_all([("tsan", "threads.cc", {"link": ["-pthread"]}), ("rel", "threads.cc", {"link": ["-pthread"]})])):
        c.run_harness(exe, v, shards=4 if v == "tsan" else 3)
    return ("2 to 8 threads that build, query, lay out, hash, merge, load, store, encode, decode, digest and map their own objects, all in one operation "
            "or mixed, and read or merge from shared databases, with random pauses; ThreadSanitizer on the real code and every result compared with the "
            "same operation run alone; distinct = distinct observed start/end interleavings")
