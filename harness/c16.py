"""C16: coordinate conversions."""
import math
ID = "C16"
BOUNDS = "1, 2 or 4 points with coordinates in [-4, 4] incl. axes, poles and the origin; radii in [0, 4], angles in two turns"
STUBS = "none"


def cases(tier):
    n = (1, 2) if tier == "quick" else (1, 2, 3)
    n += (4,)
    return [dict(what=w, n=k) for w in ("cart2spherical", "spherical2cart", "cart2pol", "pol2cart") for k in n] + [dict(what="axes", n=1)]


def run(S, case):
    G = S.mod("aspsim.room.generatepoints")
    n, w = case["n"], case["what"]
    cos, sin = S.np.cos, S.np.sin
    if w in ("cart2spherical", "axes"):
        if w == "axes":     # every combination of negative, zero and positive coordinates
            sg = [S.choose("s%d" % i, [-1, 0, 1]) for i in range(3)]
            S.assume(0 in sg)
            p = [s * S.real("m%d" % i, 0.1, 4) for i, s in enumerate(sg)]
            P = S.array([p])
        else:
            P = S.array(S.reals("p", (n, 3), -4, 4))
        P0 = P.copy()
        r, a = G.cart2spherical(P)
        S.check("shapes", S.np.size(r) == n and S.np.shape(a) == (n, 2), "%s %s" % (S.np.shape(r), S.np.shape(a)))
        rr = S.np.reshape(r, (-1,))
        for i in range(n):
            x, y, z = P0[i]
            S.le("radius is not negative", 0, rr[i])
            S.eq("radius is the distance from the origin", rr[i] * rr[i], x * x + y * y + z * z)
            for nm, v, lo, hi in (("azimuth", a[i, 0], -math.pi, math.pi), ("zenith", a[i, 1], 0, math.pi)):
                S.le("%s in range" % nm, lo, v)
                S.le("%s in range" % nm, v, hi)
            S.eq("the angles point at the point", rr[i] * cos(a[i, 0]) * sin(a[i, 1]), x)
            S.eq("the angles point at the point", rr[i] * sin(a[i, 0]) * sin(a[i, 1]), y)
            S.eq("the angles point at the point", rr[i] * cos(a[i, 1]), z)
        S.eq("converting back gives the points", G.spherical2cart(r, a), P0)
        S.eq("the points given are not changed", P, P0)
    elif w == "spherical2cart":
        r = S.reals("r", (n,), 0, 4)
        a = S.reals("a", (n, 2), -7, 7)
        two = S.bool("column")
        P = G.spherical2cart(S.array(r).reshape(n, 1) if two else S.array(r), S.array(a))
        S.check("shapes", S.np.shape(P) == (n, 3), str(S.np.shape(P)))
        for i in range(n):
            S.eq("azimuth from x towards y", P[i, 0], r[i] * cos(a[i, 0]) * sin(a[i, 1]))
            S.eq("azimuth from x towards y", P[i, 1], r[i] * sin(a[i, 0]) * sin(a[i, 1]))
            S.eq("zenith from z", P[i, 2], r[i] * cos(a[i, 1]))
    elif w == "cart2pol":
        x, y = S.array(S.reals("x", (n,), -4, 4)), S.array(S.reals("y", (n,), -4, 4))
        r, a = G.cart2pol(x, y)
        S.check("shapes", S.np.shape(r) == (n,) and S.np.shape(a) == (n,))
        for i in range(n):
            S.le("radius is not negative", 0, r[i])
            S.eq("radius is the distance from the origin", r[i] * r[i], x[i] * x[i] + y[i] * y[i])
            S.eq("the angle points at the point", r[i] * cos(a[i]), x[i])
            S.eq("the angle points at the point", r[i] * sin(a[i]), y[i])
            S.le("angle in range", -math.pi, a[i])
            S.le("angle in range", a[i], math.pi)
        bx, by = G.pol2cart(r, a)
        S.eq("converting back gives the points", bx, x)
        S.eq("converting back gives the points", by, y)
    else:
        r, a = S.array(S.reals("r", (n,), 0, 4)), S.array(S.reals("a", (n,), -7, 7))
        x, y = G.pol2cart(r, a)
        for i in range(n):
            S.eq("angle from x towards y", x[i], r[i] * cos(a[i]))
            S.eq("angle from x towards y", y[i], r[i] * sin(a[i]))
