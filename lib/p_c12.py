def run(c):
    kw = dict(extra=["-DVF_C12"])
    for v, exe in zip(("san", "rel"), c.build_all([("san", "vf.cc", kw), ("rel", "vf.cc", kw)])):
        c.run_harness(exe, v)
    return ("all 256 headers with structured payloads and all their truncations, random bytes, and values written at the other width, read "
            "from exact-size heap blocks by all four readers and compared with a reference decoder of docs/vf128.md; distinct = distinct inputs")
