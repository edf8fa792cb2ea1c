#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when lib/p_cNN.py exists."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("ASan/UBSan execution of mutated metadata images through every consumer, with an independent acceptance invariant", "generated and mutated images on exact-size heap blocks; consumers whose cost explodes on a hostile graph are bounded by a measured size estimate"),
 "C02": ("shadow-model round-trip monitor over serialisation at every capacity, memory and file, under sanitizers", "databases come from the harness's own graph generator"),
 "C03": ("real plugin runs on generated C, metadata compared with the generator's program model by a monitor using the public query API", "trusts clang 14 as the C front end; the grammar is the generator's"),
 "C04": ("layout answers compared with the values the C compiler itself computed for generated types", "SysV x86-64 ABI as implemented by clang"),
 "C05": ("bisimulation monitor comparing merged databases with their inputs through aliases, under sanitizers", "definitions that conflict, mutually recursive ones included, are merged all at once, in steps, and again"),
 "C06": ("metamorphic monitor: rebuilt, reordered, serialised and mutated graphs must agree or differ in their hashes", "graph generator bounds; collisions of SHA-224 neglected"),
 "C07": ("shadow-model monitor of every list query at every capacity with guarded output slots", "databases come from the harness's own graph generator"),
 "C08": ("reference-encoder monitor over DER round trips under ASan/UBSan and in the shipped configuration", "boundary-dense sampling of 64-bit values"),
 "C09": ("reference-decoder monitor over arbitrary and near-valid bytes on exact-size blocks under sanitizers", "inputs up to a few hundred bytes, plus declared lengths up to 2^64"),
 "C10": ("X.690 reference monitor over double bit patterns and REAL contents, sanitizers on", "boundary-dense sampling over exponent x mantissa shape"),
 "C11": ("round-trip monitor with an independent decoder of the documented format (all float patterns in thorough)", "boundary-dense sampling for doubles"),
 "C12": ("arbitrary bytes judged by an independent exact decoder of the documented format, sanitizers on", "inputs up to 20 bytes"),
 "C13": ("reference codec monitor, exhaustive small ranges and every truncation, sanitizers on", "boundary-dense sampling of 64-bit values"),
 "C14": ("reference OID codec monitor, complete registry comparison, sanitizers on", "arcs below 2^56 as the tag-number form allows"),
 "C15": ("exact-capacity heap blocks under ASan for every writer, shadow cursor model for buffer histories", "capacities enumerated 0..need+1 per value"),
 "C16": ("digests of real executions compared offline with Python hashlib, chunked and interleaved", "trusts hashlib"),
 "C17": ("history monitor against std::map with bitmap/leak/aliasing checks under sanitizers", "random histories"),
 "C18": ("tool runs whose emitted C is compiled, linked and compared byte for byte; statistics re-computed", "generated files"),
 "C19": ("captured dump text compared with an independent formatter over the shadow model", "format constants as documented by the current dumps"),
 "C20": ("asn1tool output compared with an independent printer of generated DER trees; mutants under sanitizers", "trees from an independent encoder"),
 "C21": ("ThreadSanitizer runs of mixed workloads with results compared with a single-threaded run", "schedules observed, not enumerated"),
 "C22": ("creation histories checked against a shadow table at every growth step under sanitizers", "histories up to hundreds of thousands of nodes in thorough"),
 "C23": ("fault injection into every I/O call position, exit status and on-disk result judged by an oracle", "LD_PRELOAD level faults plus /dev/full, RLIMIT_FSIZE and bad paths"),
 "C24": ("exhaustive 8/16-bit and boundary-dense wide values against definitions, five build configurations", "host is little endian"),
 "C25": ("end-to-end runs: generated programs compare their own linked-in reflection with compiler constants", "trusts clang 14 and gcc"),
 "C27": ("differential runs of the plugin in every mode (plain and ASan inside the compiler): bytes, tables, files and status compared; C++ mode against the program model", "trusts clang 14; how declarations that only C++ has are shown is not judged, only that they fail nothing and change nothing else"),
 "C28": ("sample programs run under ASan and UBSan on live objects in exactly sized blocks; output compared with direct member access and sizeof in C", "members of qualified, enum, bool, bit-field, complex, 128-bit and long double type are not generated: the printer has no form for them"),
 "C29": ("runs of the script on every short text and on generated long and damaged ones, compared with an independent parser of the documented forms", "texts that end in a newline are left out"),
 "C30": ("generated CMake projects built, edited and rebuilt with the module; the reflection each target carries is read at run time and compared with the declarations of its sources", "one directory level of CMakeLists; sources listed by relative path"),
 "C26": ("allocation meter on every malloc and free (sanitizer hooks and interposed allocator) around repeated operations on valid and hostile inputs", "counts what goes through malloc, calloc, realloc, free, new and delete"),
}
checks, na = [], []
for pid in sorted(T):
    tech, note = T[pid]
    if os.path.exists(os.path.join(here, "lib", "p_%s.py" % pid.lower())):
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "technique": "runtime monitoring: " + tech, "level": "fault_enumeration" if pid == "C23" else "exploration",
                       "level_note": "No counterexample among the executions observed; " + note + "."})
    else:
        na.append({"property": pid, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor works through the public API, the tools' output and compiler instrumentation."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not yet")
