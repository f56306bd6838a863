"""C18: periodic events of a processor."""
ID = "C18"
BOUNDS = "1..3 events with frequencies 1..4 (thorough 1..7) and any offset in -6..12, one added after some steps or defined anew; first 6 (thorough 10) samples, one step from any sample up to 10**6 (there also frequencies 7 to 1000), five fixed events over 70 samples"
STUBS = "none"


def cases(tier):
    T = tier != "quick"
    out = []
    for m in (1, 2, 3):
        for jump in (False, True):
            out.append(dict(m=m, jump=jump, f=4 if not T else 7, steps=6 if not T else 10))
    out += [dict(m=2, jump=True, F=f) for f in ([100, 1], [7, 1000], [12, 18])] + [dict(m=5, jump=False, F=[3, 7, 1, 30, 10], O=[0, -5, 2, 100, 31], steps=70)]
    return out


def run(S, case):
    EC = S.mod("aspsim.counter").EventCounter
    m = case["m"]
    F = case.get("F") or [S.cint("f%d" % i, 1, case["f"] if m < 3 else 2) for i in range(m)]
    O = case.get("O") or [S.int("o%d" % i, -6, 12) for i in range(m)]
    late = S.bool("late") if m > 1 else False     # the last one is added later
    names = ["e%d" % i for i in range(m)]
    ec = EC({names[i]: (F[i], O[i]) for i in range(m - 1 if late else m)})
    t = 0
    if case["jump"]:
        t = S.int("t", 0, 10 ** 6)
        ec.idx = t
    again = not case["jump"] and m == 2 and S.bool("again")       # the first one is defined once more
    for s in range(case["steps"] if not case["jump"] else 2):
        if again and s == 2:
            F, O = [S.cint("g", 1, 3)] + list(F[1:]), [S.int("p", -6, 12)] + list(O[1:])
            ec.add_event(names[0], F[0], O[0])
        if late and s == 1:
            ec.add_event(names[-1], F[-1], O[-1])
        ec.progress()
        t = t + 1
        S.check("progress counts samples", ec.idx == t)
        got = list(ec.event)
        known = names if not late or s >= 1 else names[:-1]
        S.check("only registered events, each once", set(got) <= set(known) and len(set(got)) == len(got), str(got))
        S.check("in the order of registration", got == [q for q in known if q in got])
        for i, q in enumerate(known):
            due = (t - O[i]) % F[i] == 0
            S.check("fires exactly at offset plus multiples of its frequency", due if q in got else S.not_(due), "%s" % q)
