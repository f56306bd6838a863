"""C13: membership and grids of regions."""
ID = "C13"
BOUNDS = ("all sizes with 1..3.9 (quick; 4.9 thorough) spacings per axis for a list of spacings (per axis equal or different), any center; "
          "plus grids with 4.9..9.5 spacings per axis for one spacing each; membership of up to five arbitrary points; combined regions of two parts")
STUBS = "none"


def cases(tier):
    T = tier != "quick"
    out = []
    sp = [(0.5, 0.25, 1.0), (0.3, 0.3, 0.3)] + ([(1.0, 0.7, 0.1), (0.2, 0.9, 0.45)] if T else [])
    for kind in ("cuboid", "rect2", "rect3", "disc2", "disc3", "ball", "cylinder"):
        out.append(dict(kind=kind, what="member"))
        for d in sp:
            out.append(dict(kind=kind, what="grid", d=d, k=(3.9 if kind != "cuboid" or T else 2.9) + (1 if T and kind != "cuboid" else 0)))
    out.append(dict(kind="combined", what="combined"))
    # larger grids and more points
    out += [dict(kind=k, what="grid", d=(0.5, 0.5, 0.25) if k != "cuboid" else (0.5, 0.75, 1.0), lo=lo, k=hi)
            for k, lo, hi in (("rect2", 6.2, 8.9), ("rect3", 7.2, 8.9), ("disc2", 6.5, 7.5), ("disc3", 8.5, 9.5), ("cuboid", 4.9, 6.2))]
    out += [dict(kind="ball", what="grid", d=(0.5, 0.5, 0.5), lo=5.5, k=6.2), dict(kind="cylinder", what="grid", d=(0.5, 0.5, 0.5), lo=4.9, k=5.8)]
    out += [dict(kind=k, what="member", n=n) for k, n in (("cuboid", 5), ("rect3", 5), ("disc2", 4), ("ball", 4), ("cylinder", 4))]
    return out


def make(S, R, kind, d, k, rng=None, lo=1):
    """(region, center, half extents, exact membership margin function)"""
    dim = 2 if kind.endswith("2") else 3
    c = S.reals("c", (3,), -2, 2)[:dim]
    kw = dict(rng=rng) if rng is not None else {}
    if kind in ("cuboid", "rect2", "rect3"):
        m = 3 if kind == "cuboid" else 2
        L = [S.real("L%d" % i, lo * d[i], k * d[i]) for i in range(m)]
        if kind == "cuboid":
            reg = R.Cuboid(L, list(c), d[:3], **kw)
        else:
            reg = R.Rectangle(L, list(c), d[:2], spatial_dim=dim, **kw)
        ext = [l / 2 for l in L]
        inside = lambda p, t: S.and_(*[S.and_(p[i] - c[i] <= ext[i] + t, c[i] - p[i] <= ext[i] + t) for i in range(m)])
        return reg, c, ext, inside, m
    m = {"disc2": 2, "disc3": 2, "ball": 3, "cylinder": 3}[kind]
    dm = max(d[:3] if kind == "ball" else d[:2])
    r = S.real("r", lo * dm / 2, k * min(d[:m]) / 2 if k * min(d[:m]) > dm else dm)
    if kind == "ball":
        reg = R.Ball(r, list(c), d[:3], **kw)
        return reg, c, [r] * 3, (lambda p, t: sum((p[i] - c[i]) ** 2 for i in range(3)) <= (r + t) ** 2), 3
    if kind == "cylinder":
        h = S.real("h", 0.5 * d[2], 2.5 * d[2])
        reg = R.Cylinder(r, h, list(c), d[:3], **kw)
        return reg, c, [r, r, h / 2], (lambda p, t: S.and_(sum((p[i] - c[i]) ** 2 for i in range(2)) <= (r + t) ** 2,
                                                           p[2] - c[2] <= h / 2 + t, c[2] - p[2] <= h / 2 + t)), 3
    reg = R.Disc(r, list(c), d[:2], spatial_dim=dim, **kw)
    return reg, c, [r, r], (lambda p, t: sum((p[i] - c[i]) ** 2 for i in range(2)) <= (r + t) ** 2), 2


def run(S, case):
    R = S.mod("aspsim.room.region")
    if case["what"] == "combined":
        return combined(S, R)
    kind = case["kind"]
    d = case.get("d", (0.5, 0.25, 1.0))
    reg, c, ext, inside, m = make(S, R, kind, d, case.get("k", 4), lo=case.get("lo", 1))
    dim = len(c)
    flat = dim > m          # a plane figure placed in space
    if case["what"] == "member":
        n = case.get("n") or S.cint("n", 1, 2 if kind in ("cuboid", "rect2", "rect3") else 1)
        p = S.reals("p", (n, dim), -5, 5)
        off = [False] * n
        if flat:
            for i in range(n):
                p[i, 2] = c[2]
                if (i % 2 == 1 if "n" in case else S.bool("off%d" % i)):
                    off[i] = True
                    p[i, 2] = c[2] + S.choose("side%d" % i, [0.25, -0.25])
        pts = S.array(p)
        if kind in ("cuboid", "rect2", "rect3") and S.bool("padding"):
            pad = [0.5, 0.25, 0.125][:m]
            got = reg.is_in_region(pts, padding=S.array([pad]))
            inside = lambda q, t: S.and_(*[S.and_(q[i] - c[i] <= ext[i] + pad[i] + t, c[i] - q[i] <= ext[i] + pad[i] + t) for i in range(m)])
        else:
            got = reg.is_in_region(pts)
        S.check("one answer per point", S.np.shape(got) == (n,), str(S.np.shape(got)))
        for i in range(n):
            g = got[i]
            if off[i]:
                S.check("points off the plane are outside", S.not_(g))
                continue
            # 1e-4: far enough from the border for floating point
            S.check("points inside are reported inside", S.implies(inside(p[i], -1e-4), g))
            S.check("points outside are reported outside", S.implies(S.not_(inside(p[i], 1e-4)), S.not_(g)))
        return
    pi = 3.141592653589793
    vol = {"disc2": lambda: pi * ext[0] ** 2, "disc3": lambda: pi * ext[0] ** 2, "ball": lambda: 4 * pi * ext[0] ** 3 / 3,
           "cylinder": lambda: pi * ext[0] ** 2 * 2 * ext[2]}.get(kind, lambda: 8 * ext[0] * ext[1] * ext[2] if m == 3 else 4 * ext[0] * ext[1])()
    S.check("volume of the region", S.close(reg.volume, vol))
    P = reg.equally_spaced_points()
    S.check("shape of the grid", P.ndim == 2 and P.shape[1] == dim, str(P.shape))
    n = P.shape[0]
    if min(case["k"], 1) >= 1 and kind in ("cuboid", "rect2", "rect3"):
        S.check("not empty", n >= 1)
    if n == 0:
        return
    for i in range(n):
        S.check("grid points lie in the region", inside(P[i], 1e-6))
        if flat:
            S.eq("grid points lie in the plane", P[i, 2], c[2])
    rel = []
    for i in range(n):
        row = [S.num(P[i, a] - c[a]) for a in range(m)]
        if not S.check("grid does not shift with the size of the region", all(v is not None for v in row)):
            return
        rel.append(row)
    # steps from the first point, in units of half a spacing around the center
    keys = set()
    for row in rel:
        key = []
        for a in range(m):
            q = 2 * row[a] / d[a]
            S.check("grid is centred with the requested spacing", abs(q - round(q)) < 1e-6, "%s" % row)
            key.append(round(q))
        keys.add(tuple(key))
    S.check("no point twice", len(keys) == n)
    axes = []
    for a in range(m):
        vals = sorted(set(k[a] for k in keys))
        axes.append(vals)
        S.check("neighbours are one spacing apart", all(y - x == 2 for x, y in zip(vals, vals[1:])), "axis %d: %s" % (a, vals))
    def at(q):
        return [c[a] + q[a] * d[a] / 2 for a in range(m)] + ([c[2]] if flat else [])

    for q in sorted(keys):
        if tuple(-v for v in q) not in keys:    # (points on the border may fall either way)
            S.check("symmetric around the center", S.not_(inside(at([-v for v in q]), -1e-6)), str(q))
    import itertools
    full = list(itertools.product(*axes))
    for q in full:
        if q in keys:
            continue
        S.check("no grid point inside is missing", S.not_(inside(at(q), -1e-6)), str(q))
    if kind in ("cuboid", "rect2", "rect3", "cylinder"):
        for a in range(m) if kind != "cylinder" else [2]:
            S.le("border is at most one spacing away", ext[a] - axes[a][-1] * d[a] / 2, d[a])


def combined(S, R):
    a = S.real("a", 0.5, 1.5)
    b = S.real("b", 0.5, 1.5)
    rng = S.mod("numpy").random.default_rng(1)
    regs = [R.Cuboid([a, 1.0, 1.0], [0.0, 0.0, 0.0], (0.5, 0.5, 0.5), rng=Fixed(S)),
            R.Cylinder(0.5, b, [4.0, 0.0, 0.0], (0.5, 0.5, 0.5), rng=Fixed(S))]
    k = S.cint("order", 0, 1)
    regs = regs[::-1] if k else regs
    comb = R.CombinedRegion(regs, rng=S.rng("r"))
    p = S.reals("p", (2, 3), -5, 5)
    got = comb.is_in_region(S.array(p))
    S.check("one answer per point", S.np.shape(got) == (2,))
    for i in range(2):
        parts = [r.is_in_region(S.array(p[i:i + 1]))[0] for r in regs]
        S.check("inside the union iff inside a part", S.and_(S.implies(got[i], S.or_(*parts)), S.implies(S.or_(*parts), got[i])))
    g = comb.equally_spaced_points()
    w = [r.equally_spaced_points() for r in regs]
    S.eq("grid of the union is the grids of the parts", g, S.np.concatenate(w, axis=0))
    S.eq("volume is the sum of the volumes", comb.volume, regs[0].volume + regs[1].volume)


class Fixed:
    """a generator that always draws the middle (the constructor samples to test for overlap)"""
    def __init__(self, S):
        self.S = S

    def uniform(self, low=0.0, high=1.0, size=None):
        P = self.S.np
        return (P.asarray(low) + P.asarray(high)) / 2 + P.zeros(size)
