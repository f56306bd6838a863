"""C14: random samples of regions."""
ID = "C14"
BOUNDS = ("1..2, 3 or 5 (ball: up to 2, within 2 rejection rounds; 1 within 3 in thorough) sampled points, all sizes with 1..3.9 spacings, any center, every outcome of the generator; "
          "combined regions of 2..4 parts of any volumes, 1..3 points; pairs of real regions of any size with their real volumes")
STUBS = "the random generator is nondeterministic (every draw is a solver variable); parts of combined regions are stand-ins that record how many points they are asked for"
from . import c13


def cases(tier):
    T = tier != "quick"
    out = [dict(kind=k, n=n) for k in ("cuboid", "rect2", "rect3", "disc2", "disc3", "cylinder") for n in ((1, 2) if not T else (1, 2, 3))]
    out += [dict(kind="ball", n=n, rounds=r) for n, r in (((1, 2), (2, 2)) if not T else ((1, 3), (2, 2)))]
    out += [dict(kind="combined", m=m, n=n) for m, n in (((2, 2), (3, 2), (3, 1)) if not T else ((2, 3), (3, 3), (3, 1)))]
    out += [dict(kind=k, n=n) for k, n in (("cuboid", 5), ("rect2", 5), ("rect3", 5), ("disc2", 3), ("cylinder", 3))] + [dict(kind="combined", m=4, n=2)]
    out.append(dict(kind="real parts", n=2 if T else 1))
    return out


class Rounds:
    """the given generator, limited to a number of requests"""
    def __init__(self, S, rng, rounds):
        self.S, self.rng, self.left = S, rng, rounds

    def __getattr__(self, n):
        f = getattr(self.rng, n)
        if not callable(f):
            return f

        def g(*a, **k):
            if self.left == 0:
                self.S.assume(False)
            self.left -= 1
            return f(*a, **k)
        return g


def run(S, case):
    R = S.mod("aspsim.room.region")
    kind, n = case["kind"], case["n"]
    rng = S.rng("r")
    if kind == "combined":
        return combined(S, R, rng, case)
    if kind == "real parts":
        return real_parts(S, R, rng, case)
    given = Rounds(S, rng, case["rounds"]) if kind == "ball" else rng
    reg, c, ext, inside, m = c13.make(S, R, kind, (0.5, 0.25, 1.0), 3.9, rng=given)
    P = reg.sample_points(n)
    S.check("as many points as asked for", S.np.shape(P) == (n, len(c)), str(S.np.shape(P)))
    draws = [S.real("r.u%d" % i, 0, 1, hi_open=True) for i in range(rng.i)]
    if not S.check("samples come from the given generator", len(draws) >= n * m, "%d draws" % len(draws)):
        return
    used = set()

    needs = []

    def match(name, pred):
        """some draw satisfies pred (distinct ones are assigned at the end)"""
        c = []
        for i, u in enumerate(draws):
            if S.holds(pred(u)):
                c.append(i)
                if S.symbolic:
                    break
        S.check(name, True if c else S.or_(*[pred(u) for u in draws]))
        needs.append(c)

    for i in range(n):
        S.check("samples lie in the region", inside(P[i], 1e-6))
        if len(c) > m:
            S.eq("samples lie in the plane", P[i, 2], c[2])
        if kind in ("cuboid", "rect2", "rect3"):
            for a in range(m):
                match("each coordinate is uniform on the side", lambda u: S.or_(S.close(P[i, a], c[a] - ext[a] + 2 * ext[a] * u), S.close(P[i, a], c[a] + ext[a] - 2 * ext[a] * u)))
        elif kind == "ball":
            hit = None
            for t in range(len(draws) // 3):
                if t in used:
                    continue
                eqs = S.and_(*[S.close(P[i, a], c[a] + ext[a] * (2 * draws[3 * t + a] - 1)) for a in range(3)])
                if S.holds(eqs):
                    hit = t
                    break
            if not S.check("each sample is a uniform point of the cube that fell into the ball, used once", hit is not None):
                return
            used.add(hit)
        else:
            x, y = P[i, 0] - c[0], P[i, 1] - c[1]
            r = ext[0]
            match("squared radius is uniform", lambda u: S.close(x * x + y * y, r * r * u))
            match("angle is uniform", lambda u: S.and_(S.close(x * S.np.sin(2 * S.np.pi * u), y * S.np.cos(2 * S.np.pi * u)),
                                                       x * S.np.cos(2 * S.np.pi * u) + y * S.np.sin(2 * S.np.pi * u) >= -1e-9))
            if kind == "cylinder":
                match("height is uniform", lambda u: S.or_(S.close(P[i, 2], c[2] - ext[2] + 2 * ext[2] * u), S.close(P[i, 2], c[2] + ext[2] - 2 * ext[2] * u)))
    def assign(k, taken):
        return k == len(needs) or any(assign(k + 1, taken | {i}) for i in needs[k] if i not in taken)
    S.check("every draw is used for one coordinate only", assign(0, frozenset()))
    if kind == "ball":
        for t in range(max(used)):
            if t not in used:
                S.check("only points outside of the ball are rejected", S.not_(sum((ext[0] * (2 * draws[3 * t + a] - 1)) ** 2 for a in range(3)) <= (ext[0] - 1e-6) ** 2))


def real_parts(S, R, rng, case):
    """two real regions of any size: a point falls into the first one for draws below its share of the volume"""
    n, pi = case["n"], 3.141592653589793
    h, r, l = S.real("h", 0.5, 2), S.real("q", 0.5, 1), S.real("l", 0.5, 2)
    shapes = dict(cuboid=lambda c, g: (R.Cuboid([l, 1.0, 0.5], c, (0.5, 0.5, 0.5), rng=g), l * 0.5),
                  cylinder=lambda c, g: (R.Cylinder(r, h, c, (0.5, 0.5, 0.5), rng=g), pi * r * r * h),
                  ball=lambda c, g: (R.Ball(r, c, (0.5, 0.5, 0.5), rng=g), 4 * pi * r * r * r / 3),
                  disc=lambda c, g: (R.Disc(r, c, (0.5, 0.5), rng=g), pi * r * r),
                  rectangle=lambda c, g: (R.Rectangle([l, 0.5], c, (0.5, 0.5), rng=g), l * 0.5))
    pair = S.choose("pair", [("cuboid", "cylinder"), ("ball", "cuboid"), ("cylinder", "ball"), ("disc", "rectangle"), ("rectangle", "disc")])
    a, va = shapes[pair[0]]([0.0, 0.0, 0.0], c13.Fixed(S))
    b, vb = shapes[pair[1]]([9.0, 0.0, 0.0], c13.Fixed(S))
    comb = R.CombinedRegion([a, b], rng=rng)
    P = comb.sample_points(n)
    S.check("as many points as asked for", S.np.shape(P) == (n, 3), str(S.np.shape(P)))
    if not S.check("samples come from the given generator", rng.i == n, "%d draws" % rng.i):
        return
    draws = [S.real("r.u%d" % i, 0, 1, hi_open=True) for i in range(n)]
    first = [S.ite(P[i, 0] < 4, 1, 0) for i in range(n)]
    got = sum(first[1:], first[0])
    sure = [S.ite(u * (va + vb) <= va - 1e-6, 1, 0) for u in draws]
    maybe = [S.ite(u * (va + vb) <= va + 1e-6, 1, 0) for u in draws]
    S.check("a region gets points in proportion to its volume", S.and_(sum(sure[1:], sure[0]) <= got, got <= sum(maybe[1:], maybe[0])), str(pair))


class Part:
    def __init__(self, S, tag, volume):
        self.S, self.tag, self.volume, self.asked = S, tag, volume, 0

    def is_in_region(self, p, **k):
        return self.S.np.zeros(len(p), dtype=bool)

    def equally_spaced_points(self):
        return self.S.np.full((1, 3), float(self.tag))

    def sample_points(self, num):
        num = num.__index__()
        return self.S.np.full((num, 3), float(self.tag))


def combined(S, R, rng, case):
    n, m = case["n"], case["m"]
    v = [S.real("v%d" % i, 0.1, 8) for i in range(m)]
    comb = R.CombinedRegion([Part(S, i, v[i]) for i in range(m)], rng=rng)
    V = sum(v[1:], v[0])
    P = comb.sample_points(n)
    S.check("as many points as asked for", S.np.shape(P) == (n, 3), str(S.np.shape(P)))
    tags = [S.num(P[i, 0]) for i in range(n)]
    if not S.check("samples come from the given generator", rng.i == n, "%d draws" % rng.i):
        return
    draws = [S.real("r.u%d" % i, 0, 1, hi_open=True) for i in range(n)]
    for t in range(m):
        lo = sum(v[:t], 0)
        hi = lo + v[t]
        # draws within 1e-6 of a border may count either way
        sure = [S.and_(u * V >= lo + 1e-6, u * V <= hi - 1e-6) for u in draws]
        maybe = [S.and_(u * V >= lo - 1e-6, u * V <= hi + 1e-6) for u in draws]
        got = sum(1 for x in tags if x == t)
        S.check("every part gets its share of the points", S.and_(sum(S.ite(s, 1, 0) for s in sure) <= got, got <= sum(S.ite(s, 1, 0) for s in maybe)), "part %d got %d" % (t, got))
