"""C15: geometry generators."""
import math
ID = "C15"
BOUNDS = ("1..6 points (thorough 1..9); side lengths, radii, heights, start angles, extra side lengths any reals in a box; offset either a list of values with any side "
          "lengths or any value in [0, 1] with fixed side lengths; 1..3 circles or rectangles stacked; grids of up to 3x3 (thorough 4x4); every generator once more with 9 to 45 points")
STUBS = "the random generator is nondeterministic"


def cases(tier):
    T = tier != "quick"
    N = (1, 2, 3, 5, 6) if not T else tuple(range(1, 10))
    out = [dict(kind="circle", n=n, radius=r, start=T or (n == 2 and r == "range")) for n in N[:4] for r in ("scalar", "range")]
    for n in N:
        for o in (0, 0.5, 1.0, 0.3):
            if T or n < 5 or (n == 5 and o == 0.5) or (n == 6 and o == 1.0):
                out += [dict(kind="rect", n=n, offset=o, extra=e) for e in (("none", "pair") if T or o == 0.5 else ("pair",))]
        out += [dict(kind="rect", n=n, offset=None, extra="scalar")]
    out += [dict(kind="circles", n=n, m=m, z=z, angle=a) for n, m, z, a in ((3, 1, True, "same"), (5, 2, True, "distribute"), (5, 3, False, "distribute"), (4, 2, False, "same"), (5, 3, True, "random"))]
    out += [dict(kind="stacked", n=n, m=m) for n, m in ((3, 1), (5, 2), (5, 3))]
    out += [dict(kind="grid", n=n, lim=l) for n in ((1, 2, 3) if not T else (1, 2, 3, 4)) for l in (2, 4)]
    out += [dict(kind="cuboid", n=n, nz=nz) for n, nz in (((1, 4), (2, 2), (2, 1)) if not T else ((1, 4), (2, 2), (3, 2), (2, 3), (3, 1)))]
    out += [dict(kind="four", n=n) for n in ((4, 6, 10) if not T else (4, 6, 8, 10, 13, 16))]
    out += [dict(kind="sunflower", n=n) for n in N[:4]]
    out += [dict(kind="disc", dist=d) for d in (0.6, 1.1)]
    # more points
    out += [dict(kind="circle", n=12, radius="scalar", start=False), dict(kind="circle", n=9, radius="range", start=False), dict(kind="rect", n=13, offset=None, extra="scalar"),
            dict(kind="rect", n=9, offset=None, extra="scalar"), dict(kind="circles", n=13, m=4, z=True, angle="distribute"), dict(kind="stacked", n=6, m=4), dict(kind="grid", n=6, lim=2),
            dict(kind="cuboid", n=3, nz=5), dict(kind="sunflower", n=12), dict(kind="disc", dist=0.35)]
    return out


def run(S, case):
    G = S.mod("aspsim.room.generatepoints")
    globals()[case["kind"]](S, G, case)


def maybe_z(S, P, dim_wanted):
    """draws whether a z coordinate is given"""
    return S.real("z", -2, 2) if S.bool("with z") else None


def circle(S, G, case):
    n = case["n"]
    a0 = S.real("start", 0, 6.5) if case["start"] else S.choose("start", [0, 0.7, 4.0, 6.5])
    z = maybe_z(S, G, 3)
    rng = S.rng("r")
    if case["radius"] == "scalar":
        r0 = r1 = S.choose("radius", [0.5, 2, 1.25])
        P = G.equiangular_circle(n, r0, a0, z)
    else:
        r0 = S.real("r0", 0.1, 1)
        r1 = r0 + S.real("dr", 0, 1)
        P = G.equiangular_circle(n, (r0, r1), a0, z, rng=rng)
    check_circle(S, P, n, r0, r1, a0, z)


def check_circle(S, P, n, r0, r1, a0, z):
    S.check("as many points as asked for", S.np.shape(P) == (n, 2 if z is None else 3), str(S.np.shape(P)))
    for k in range(n):
        x, y = P[k, 0], P[k, 1]
        co, si = S.np.cos(a0 + 2 * math.pi * k / n), S.np.sin(a0 + 2 * math.pi * k / n)
        S.le("not closer than the inner radius", r0, x * co + y * si)
        S.le("not further than the outer radius", x * co + y * si, r1)
        S.eq("angles are equally spaced from the start angle", x * si, y * co)
        if z is not None:
            S.eq("same height", P[k, 2], z)


def rect_points(a, b, s, push_x, push_y, S):
    """border point at arc length s in [0, 2(a+b)) from the upper left corner, clockwise, pushed outward"""
    c = [(s <= a, (s - a / 2, b / 2 + push_y)), (s <= a + b, (a / 2 + push_x, b / 2 - (s - a))),
         (s <= 2 * a + b, (a / 2 - (s - a - b), -b / 2 - push_y)), (None, (-a / 2 - push_x, -b / 2 + (s - 2 * a - b)))]
    return c


def on_place(S, p, a, b, s, px, py):
    """p is the border point at arc length s (either side's normal at a corner)"""
    t = 1e-5
    C = 2 * (a + b)
    alt = []
    lim = [0, a, a + b, 2 * a + b, C]
    pts = rect_points(a, b, s, px, py, S)
    for i in range(4):
        alt.append(S.and_(s >= lim[i] - t, s <= lim[i + 1] + t, near(S, p[0], pts[i][1][0]), near(S, p[1], pts[i][1][1])))
    # the start is also the end
    s2 = s + C
    q = (-a / 2 - px, -b / 2 + (s2 - 2 * a - b))
    alt.append(S.and_(s <= t, near(S, p[0], q[0]), near(S, p[1], q[1])))
    return S.or_(*alt)


def near(S, x, y):
    return S.and_(x - y <= 1e-5, y - x <= 1e-5)


def check_rect(S, P, n, a, b, offset, ex, ey, name="every point is at its place on the border"):
    C = 2 * (a + b)
    left = list(range(n))
    for i in range(n):
        s = (i + offset) * C / n
        if not S.np.shape(s) and S.holds(s >= C):
            s = s - C
        px, py = (ex / 2, ey / 2) if i % 2 else (0, 0)
        hit = None
        for k in left:
            if S.holds(on_place(S, P[k], a, b, s, px, py)):
                hit = k
                break
        if hit is None:
            S.check(name, S.or_(*[on_place(S, P[k], a, b, s, px, py) for k in left]), "point %d" % i)
        else:
            S.check(name, True)
            left.remove(hit)


def rect(S, G, case):
    n, off = case["n"], case["offset"]
    if off is None:
        off = S.real("offset", 0, 1)
        a, b = S.choose("sides", [(1.0, 1.0), (2.0, 1.0), (0.7, 3.1)])
        S.assume(S.or_(off <= 0.999999, off == 1))
    else:
        a, b = S.real("a", 0.2, 4), S.real("b", 0.2, 4)
    z = maybe_z(S, G, 3)
    if case["extra"] == "none":
        ex = ey = 0
        P = G.equidistant_rectangle(n, (a, b), offset=off, z=z)
    elif case["extra"] == "pair":
        ex, ey = S.real("ex", 0, 1), S.real("ey", 0, 1)
        P = G.equidistant_rectangle(n, (a, b), (ex, ey), offset=off, z=z)
    else:
        ex = ey = S.real("ex", 0, 1)
        P = G.equidistant_rectangle(n, [a, b], ex, offset=off, z=z)
    S.check("as many points as asked for", S.np.shape(P) == (n, 2 if z is None else 3), str(S.np.shape(P)))
    check_rect(S, P, n, a, b, off, ex, ey)
    if z is not None:
        for k in range(n):
            S.eq("same height", P[k, 2], z)


def share(n, m):
    return [n // m + (1 if i < n % m else 0) for i in range(m)]


def heights(m, dz):
    return [(i - (m // 2)) * dz + (dz / 2 if m % 2 == 0 else 0) for i in range(m)]


def circles(S, G, case):
    n, m = case["n"], case["m"]
    r = S.choose("radius", [1.0, 2.5])
    dz = S.real("dz", 0.1, 2) if case["z"] else None
    P = G.concentrical_circles(n, m, r, dz, angle_offset=case["angle"])
    S.check("as many points as asked for", S.np.shape(P) == (n, 3 if case["z"] else 2), str(S.np.shape(P)))
    k = 0
    for i, c in enumerate(share(n, m)):
        Q = P[k:k + c]
        k += c
        for j in range(c):
            S.eq("points lie on the circle", Q[j, 0] * Q[j, 0] + Q[j, 1] * Q[j, 1], r * r)
            if case["z"]:
                S.eq("circles are stacked around the center", Q[j, 2], heights(m, dz)[i])
        if case["angle"] != "random":
            a0 = 0.0 if case["angle"] == "same" else 2 * math.pi / share(n, m)[0] * i / m
            check_circle(S, Q[:, :2], c, r, r, a0, None)


def stacked(S, G, case):
    n, m = case["n"], case["m"]
    a, b = S.real("a", 0.2, 4), S.real("b", 0.2, 4)
    dz = S.real("dz", 0.1, 2)
    P = G.stacked_equidistant_rectangles(n, m, (a, b), dz)
    S.check("as many points as asked for", S.np.shape(P) == (n, 3), str(S.np.shape(P)))
    k = 0
    for i, c in enumerate(share(n, m)):
        Q = P[k:k + c]
        k += c
        for j in range(c):
            S.eq("rectangles are stacked around the center", Q[j, 2], heights(m, dz)[i])
        check_rect(S, Q, c, a, b, (i + 0.5) / m, 0, 0)


def grid(S, G, case):
    n = case["n"]
    lo = [S.real("x0", -3, 3), S.real("y0", -3, 3)]
    hi = [lo[0] + S.real("dx", 0.1, 4), lo[1] + S.real("dy", 0.1, 4)]
    z = maybe_z(S, G, 3)
    if case["lim"] == 2:
        lo[1], hi[1] = lo[0], hi[0]
        P = G.uniform_filled_rectangle(n * n, (lo[0], hi[0]), z)
    else:
        P = G.uniform_filled_rectangle(n * n, (lo[0], lo[1], hi[0], hi[1]), z)
    S.check("as many points as asked for", S.np.shape(P) == (n * n, 2 if z is None else 3), str(S.np.shape(P)))
    k = 0
    for iy in range(n):
        for ix in range(n):
            for a, i in ((0, ix), (1, iy)):
                S.eq("grid runs evenly from limit to limit", P[k, a], lo[a] + ((hi[a] - lo[a]) * i / (n - 1) if n > 1 else 0))
            if z is not None:
                S.eq("same height", P[k, 2], z)
            k += 1
    for bad in (2, 3, 5):
        S.check("a count that is no square is refused", S.raises(lambda: G.uniform_filled_rectangle(bad)) is not None)


def cuboid(S, G, case):
    n, nz = case["n"], case["nz"]
    d = [S.real("d%d" % i, 0.1, 4) for i in range(3)]
    P = G.uniform_filled_cuboid(n * n * nz, d, nz)
    S.check("as many points as asked for", S.np.shape(P) == (n * n * nz, 3), str(S.np.shape(P)))
    want = [((2 * i + 1) / (2 * n), (2 * j + 1) / (2 * n), (2 * k + 1) / (2 * nz)) for i in range(n) for j in range(n) for k in range(nz)]
    left = list(range(len(P)))
    for w in want:
        hit = [k for k in left if S.holds(S.and_(*[near(S, P[k, a], d[a] * (w[a] - 0.5)) for a in range(3)]))]
        S.check("cell centers of the cuboid, each once", len(hit) == 1, "%s" % (w,))
        for k in hit:
            left.remove(k)


def four(S, G, case):
    n = case["n"]
    L = S.choose("side", [1.0, 2.5])
    d = S.real("out", 0, 1)
    lo, hi = S.real("lo", -2, 0), S.real("hi", 0.1, 2)
    P = G.four_equidistant_rectangles(n, L, d, lo, hi)
    S.check("as many points as asked for", S.np.shape(P) == (n, 3), str(S.np.shape(P)))
    for k in range(n):
        S.eq("two low, two high, and so on", P[k, 2], hi if k % 4 in (2, 3) else lo)
    base = G.equidistant_rectangle(n, (L, L))
    for k in range(n):
        dx, dy = P[k, 0] - base[k, 0], P[k, 1] - base[k, 1]
        S.eq("every other point is further out", dx * dx + dy * dy, d * d if k % 2 else 0)
        S.le("never further in", 0, dx * base[k, 0] + dy * base[k, 1])


def sunflower(S, G, case):
    n = case["n"]
    r = S.real("r", 0.2, 3)
    a0 = S.real("a0", 0, 6)
    P = G.sunflower_pattern(n, r, a0)
    S.check("as many points as asked for", S.np.shape(P) == (n, 2), str(S.np.shape(P)))
    phi2 = ((math.sqrt(5) + 1) / 2) ** 2
    for k in range(n):
        # the k-th point is on the border of a disc with (k + 1/2)/(n - 1/2) of the area
        S.eq("every point adds the same area", P[k, 0] * P[k, 0] + P[k, 1] * P[k, 1], r * r * (k + 0.5) / (n - 0.5))
        t = (k + 1) * 2 * math.pi / phi2
        co, si = S.np.cos(t + a0), S.np.sin(t + a0)
        S.eq("points turn by the golden angle from the offset", P[k, 0] * si, P[k, 1] * co)
        S.le("on the right side", 0, P[k, 0] * co + P[k, 1] * si)


def disc(S, G, case):
    r = S.real("r", 0.6, 1.6)
    z = maybe_z(S, G, 3)
    P = G.uniform_disc(case["dist"], r, z)
    S.check("one row per point", P.ndim == 2 and P.shape[1] == (2 if z is None else 3), str(S.np.shape(P)))
    for k in range(len(P)):
        S.le("points lie in the disc", P[k, 0] * P[k, 0] + P[k, 1] * P[k, 1], r * r)
        if z is not None:
            S.eq("same height", P[k, 2], z)
