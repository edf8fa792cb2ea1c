from concurrent.futures import ThreadPoolExecutor
SRC = ["bits.cc", "bits_c.c", "bits_cxx.cc", "bits_fallback_c.c", "bits_fallback_cxx.cc"]
def run(c):
    with ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(lambda v: c.build("bits", v, SRC, lib=False), ("san", "rel")))
    for v, exe in zip(("san", "rel"), exes):
        c.run_harness(exe, v)
    return ("every function of bits.h and endian.h as a C program (generic selections), as a C++ program (specialisations), with the compiler's "
            "intrinsics and with the portable implementations, on all 16-bit values in several positions, all runs of ones and boundary-dense "
            "64-bit values, against bit-by-bit definitions; distinct = distinct arguments")
