"""C25: block partition helpers"""
ID = "C25"
BOUNDS = "num_samples <= 9 (quick) / 16 (thorough), block size <= 5 / 8, every start index / buffer position; index differences <= 9 / 18 from arbitrary (unbounded) start indices; plus any block sizes between 90 and 260 with up to 400 samples"
STUBS = "none"


def cases(tier):
    T = tier != "quick"
    return [dict(kind="blocks", n=16 if T else 9, b=8 if T else 5),
            dict(kind="buffer", n=14 if T else 8, b=5 if T else 3, c=5 if T else 3),
            dict(kind="until", n=18 if T else 9, b=8 if T else 5),
            # large blocks, any sizes
            dict(kind="blocks", n=400, b=260, least=100),
            dict(kind="buffer", n=300, b=260, c=160, least=90),
            dict(kind="until", n=300, b=[64, 100, 101])]


def partition(S, r, n, first, size):
    """consecutive blocks that stop exactly at the boundaries first, first+size, ..."""
    tot = 0
    for i, x in enumerate(r):
        S.check("block is non-empty", x >= 1)
        room = first if i == 0 else size
        S.check("block never crosses a boundary", x <= room)
        if i < len(r) - 1:
            S.check("inner blocks fill up to the boundary", x == room)
        tot = tot + x
    S.check("blocks add up", tot == n)


def run(S, case):
    k = case["kind"]
    if k == "blocks":
        u = S.mod("aspsim.utilities")
        n = S.int("n", 0, case["n"])
        b = S.int("b", case.get("least", 1), case["b"])
        s = S.int("start", 0, case["b"] - 1)
        S.assume(s < b)
        partition(S, u.calc_block_sizes(n, s, b), n, b - s, b)
    elif k == "buffer":
        p = S.mod("aspsim.processor")
        n = S.int("n", 0, case["n"])
        buf = S.int("buf", case.get("least", 1), case["b"])
        chunk = S.int("chunk", case.get("least", 1), case["c"])
        idx = S.int("idx", 0, case["b"] + case["c"] - 1)
        S.assume(idx < buf + chunk)
        partition(S, p.calc_block_sizes_with_buffer(n, idx, buf, chunk), n, buf + chunk - idx, chunk)
    else:
        p = S.mod("aspsim.processor")
        a = S.int("start", -10**6, 10**6)
        d = S.int("d", 0, case["n"])
        b = S.choose("b", case["b"]) if isinstance(case["b"], list) else S.cint("b", 1, case["b"])
        e = a + d
        f = p.find_first_index_for_block(a, e, b)
        S.check("first index is not before the earliest", f >= a)
        S.check("first index is the earliest possible one", f < a + b)
        S.check("a whole number of blocks remains", (e - f) % b == 0)
        pos = f
        for lo, hi in p.block_process_until_index(a, e, b):
            S.check("blocks are consecutive", lo == pos)
            S.check("blocks have the block size", hi - lo == b)
            pos = hi
        S.check("blocks end at the index to end at", pos == e)
