def run(c):
    for v, exe in zip(("san", "rel"), c.build_all([("san", "merge.cc", {}), ("rel", "merge.cc", {})])):
        c.run_harness(exe, v)
    return ("sets of 0..25 generated inputs (sources and archives sharing headers, the same input twice, conflicting definitions) merged, "
            "loaded, merged again and with others; each source compared with its original by bisimulation through aliases, in order and once; "
            "bounds of the result and the inputs compared before and after; distinct = distinct merged images")
