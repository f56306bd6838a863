"""C17: phases of a processor."""
ID = "C17"
BOUNDS = "1..3 phases of 0..3 samples each (the first up to 10**6 in a single step from any point), negative and infinite lengths; up to 8 phases of fixed lengths over 45 samples; 9 (thorough 13) steps"
STUBS = "none"


def cases(tier):
    T = tier != "quick"
    out = [dict(m=m, steps=9 if not T else 13, hi=3 if not T else 4) for m in ((1, 2, 3) if not T else (1, 2, 3, 4))]
    return out + [dict(m=1, long=True), dict(m=2, long=True)] + \
        [dict(m=len(l), steps=45, lens=l) for l in ([5, 0, 1, 12, 9], [0, 0, 7, 1, 1, 0, 20, 3], [16, 1, -1, 4], [40])]


def want(S, L, t):
    """name of the phase of sample t, and whether it is its first sample"""
    start = 0
    for i, l in enumerate(L):
        if l is None:
            return "p%d" % i, t == start
        if t < start + l:
            return "p%d" % i, t == start
        start += l
    return None, t == start


def run(S, case):
    PC = S.mod("aspsim.counter").PhaseCounter
    m = case["m"]
    if case.get("long"):
        return long(S, PC, m)
    L = case.get("lens") or [S.int("L%d" % i, -1, case["hi"]) for i in range(m)]
    inf = S.cint("infinite", 0, m)      # m: none is np.inf
    d = {"p%d" % i: (float("inf") if i == inf else L[i]) for i in range(m)}
    given = dict(d)
    pc = PC(d)
    conc = [None if i == inf else L[i].__index__() if S.symbolic and not case.get("lens") else int(L[i]) for i in range(m)]
    conc = [None if c is None or c < 0 else c for c in conc]
    for t in range(case["steps"]):
        name, first = want(S, conc, t)
        S.check("phase of every sample", pc.phase == name, "sample %d: %s, lengths %s" % (t, pc.phase, conc))
        for q in list(d) + [None]:
            S.check("query by name", bool(pc.current_phase_is(q)) == (q == name), "sample %d %s" % (t, q))
        if name is not None:
            S.check("first sample of each phase is flagged once", bool(pc.first_sample) == first, "sample %d, lengths %s" % (t, conc))
        pc.progress()
    S.check("the definition given is not changed", list(d) == list(given) and all(d[k] is given[k] for k in d))
    start = 0
    for i in range(m):
        if start is None:
            break
        S.check("start of every phase", pc.start_idxs["p%d" % i] == start)
        start = None if conc[i] is None else start + conc[i]


def long(S, PC, m):
    """one step from anywhere in long phases"""
    L = S.int("L", 2, 10 ** 6)
    K = S.int("K", 1, 10 ** 6)
    d = {"p0": L, "p1": K} if m == 2 else {"p0": L}
    pc = PC(d)
    t = S.int("t", 0, 10 ** 6)
    S.assume(t <= L - 1)
    pc.idx = t
    pc.progress()
    end = S.holds(t + 1 >= L) if S.symbolic else t + 1 >= L
    S.check("phase of every sample", pc.phase == (("p1" if m == 2 else None) if end else "p0"))
    if S.symbolic and not end:
        S.check("phase of every sample", t + 1 < L)
