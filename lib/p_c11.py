def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "vf.cc", {}), ("rel", "vf.cc", {})])):
        if v == "san":
            # the sweep over all 2^32 floats runs in the release configuration only
            for fam in ("grid64", "grid32", "random64", "random32", "stream"):
                c.run_harness(exe, v, family=fam)
        else:
            c.run_harness(exe, v)
    if not c.quick: c.notes["f32_exhaustive"] = c.stats.get("f32_sweep", 0) >= 1 << 32
    return ("every exponent x mantissa-shape grid and random floats of both widths are written with both interfaces, the octets judged by a "
            "decoder written from docs/vf128.md (value, inlining, minimality) and read back; plus a sweep over float32 bit patterns "
            "(thorough: all 2^32); distinct = distinct floats of the grids and random runs, not counting the sweep")
