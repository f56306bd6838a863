"""C11: linear trajectories."""
ID = "C11"
BOUNDS = ("polygons: out-and-back, 3-4-5 triangles, rectangles, L-shapes (2-5 points, explicitly closed or not), scales/side lengths and start point symbolic reals; "
          "all times of the first period (thorough: two periods, and two after sample 100000; quick: that for one shape with periods of 5.5 and 7.5 samples); periods 0.5..1.7 s at 8 and 10 Hz; both modes")
STUBS = "none"

SHAPES = {      # unit direction of each step and the symbolic length used
    "back": [((3, 4, 0), 0), ((-3, -4, 0), 0)],
    "triangle": [((3, 0, 0), 0), ((0, 4, 0), 0), ((-3, -4, 0), 0)],
    "rect": [((1, 0, 0), 0), ((0, 0, 1), 1), ((-1, 0, 0), 0), ((0, 0, -1), 1)],
    "two": [((0, 1, 0), 0), ((1, 0, 0), 1), ((-1, 0, 0), 1), ((0, -1, 0), 0)],
}


def cases(tier):
    T = tier != "quick"
    out = []
    for mode in ("constant_speed", "constant_time"):
        for sh in SHAPES:
            for per, fs in [(0.5, 8), (1.7, 10)] if not T else [(0.5, 8), (1.7, 10), (1.0, 16), (0.75, 10), (2, 7)]:
                out.append(dict(mode=mode, shape=sh, per=per, fs=fs, deep=T))
        # a period that is no whole number of samples: several laps, and late times
        out.append(dict(mode=mode, shape="triangle", per=0.75, fs=10, deep=False, laps=3))
        out.append(dict(mode=mode, shape="rect", per=0.55, fs=10, deep=False, laps=2, base=100000))
    return out


def run(S, case):
    tr = S.mod("aspsim.room.trajectory")
    steps = SHAPES[case["shape"]]
    L = S.reals("L", (2,), 0.1, 3)
    start = S.reals("p", (3,), -2, 2)
    T = case["per"] * case["fs"]
    pts = [[start[0], start[1], start[2]]]
    for d, li in steps:
        pts.append([pts[-1][k] + d[k] * L[li] for k in range(3)])
    variant = S.cint("variant", 0, 2 if case["deep"] else 1)
    explicit = variant > 0
    given = pts if explicit else pts[:-1]
    arg = S.array(given) if variant == 0 else [list(p) for p in given]
    t = tr.LinearTrajectory(arg, case["per"], case["fs"], mode=case["mode"])
    n = (S.choose("base", [0, 100000]) if case["deep"] else case.get("base", 0)) + S.cint("m", 0, int(case.get("laps", 2 if case["deep"] else 1) * T) + 1)
    # unit norm of each direction
    nrm = [sum(c * c for c in d) ** 0.5 for d, _ in steps]
    if variant == 1:
        t.current_pos(n + 3)
    p = t.current_pos(n)
    S.check("one position", tuple(p.shape) == (1, 3))
    u = n % T                       # time into the period, in samples
    if case["mode"] == "constant_speed":
        tot = sum(nrm[i] * L[li] for i, (d, li) in enumerate(steps))
        # segment i starts at time (distance before it) / tot * T; compare without dividing
        acc = 0.0
        for i, (d, li) in enumerate(steps):
            ln = nrm[i] * L[li]
            s = u * tot - acc * T           # distance into the segment, times T
            inside = S.and_(s >= 0, s <= ln * T)
            if bool(inside):
                for c in range(3):
                    S.eq("on its segment, at constant speed", p[0, c] * T * nrm[i], pts[i][c] * T * nrm[i] + s * d[c], "seg %d" % i)
                break
            acc = acc + ln
        else:
            S.check("some segment holds the time", False)
    else:
        m = len(steps)
        for i, (d, li) in enumerate(steps):
            a, b = i * T / m, (i + 1) * T / m
            if i == m - 1 or bool(u < b):
                f = (u - a) * (m / T)
                for c in range(3):
                    S.eq("on its segment, equal time per segment", p[0, c], pts[i][c] + f * (pts[i + 1][c] - pts[i][c]), "seg %d" % i)
                break
    q = t.current_pos(0)
    S.eq("starts at the first point", q[0], pts[0])
    S.eq("same time, same position", t.current_pos(n), p)
    if T == int(T):
        S.eq("periodic", t.current_pos(n + int(T)), p)
