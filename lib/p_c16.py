import hashlib, random, struct, os, multiprocessing
def _big(a):
    n, one, alg = a
    h = hashlib.sha224() if alg == "4" else hashlib.sha256()
    z = bytes(1 << 24)
    left = n
    while left: k = min(left, 1 << 24); h.update(z[:k] if k < 1 << 24 else z); left -= k
    return "%d:%s:%s:%s" % (n, one, alg, h.hexdigest())
def run(c):
    r = random.Random(c.seed * 7919 + 5)
    f = os.path.join(c.work, "records")
    lens = list(range(0, 520)) + [1 << k for k in range(9, 17)] + [(1 << k) - 1 - r.randrange(70) for k in range(10, 17)]
    lens += [r.randrange(520, 5000) for _ in range(150)] + [64 * r.randrange(1, 300) + d for d in (-9, -8, -7, -1, 0, 1, 55, 56, 57) for _ in range(12)]
    if not c.quick: lens += [r.randrange(0, 300000) for _ in range(300)] + list(range(520, 3000))
    with open(f, "wb") as o:
        for n in lens:
            m = [r.randbytes(n), bytes(n), b"\xff" * n][r.choice((0, 0, 0, 0, 0, 0, 1, 2))]
            o.write(struct.pack("<I", n) + m + hashlib.sha224(m).digest() + hashlib.sha256(m).digest())
    big = [((1 << 29) + 3, "0", "8"), ((1 << 29) - 9 + 64, "1", "4"), ((1 << 32) + 77, "1", "8"), (1 << 32, "1", "4")]
    if not c.quick: big += [((1 << 32) + 1, "0", "4"), ((1 << 33) - 1, "1", "4"), ((1 << 34) + 9, "0", "8")]
    with multiprocessing.Pool(3) as p:
        res = p.map_async(_big, big)
        exes = c.build_all([("san", "sha.cc", {}), ("rel", "sha.cc", {})])
        bigs = ",".join(res.get())
    o = {"file": f, "big": bigs}
    for v, exe in zip(("san", "rel"), exes):
        c.run_harness(exe, v, opts=o, stall=300)
    return ("messages of every length 0..519 and many longer ones, whole, in random, fixed-step and boundary-hugging updates, from misaligned exact "
            "heap blocks, in reused, copied and interleaved contexts, against hashlib's digests; messages longer than 2^32 bits and than 2^32 bytes in "
            "the release build; distinct = distinct (algorithm, message, chunking)")
