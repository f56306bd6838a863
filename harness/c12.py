"""C12: circular trajectories and trajectory collections."""
import math

ID = "C12"
BOUNDS = "center, radii, start angle (-7..7) symbolic reals; all times of the first two periods and two periods after sample 100000; angular/radial periods from a grid of exact and inexact values; plots for short and long periods"
STUBS = "plot: a stand-in axis that keeps the plotted points"


def cases(tier):
    T = tier != "quick"
    per = [(0.5, 0.5), (1.0, 0.25), (0.75, 1.5)] if not T else [(0.5, 0.5), (1.0, 0.25), (0.75, 1.5), (1.25, 3.0), (0.7, 0.3), (2, 2), (0.25, 4)]
    out = [dict(kind="pos", rp=r, ap=a, fs=fs) for r, a in per for fs in (8, 20)]
    out += [dict(kind="pos", rp=0.755, ap=1.3, fs=10), dict(kind="pos", rp=1.3, ap=0.755, fs=10)]     # periods that are no whole number of samples
    out.append(dict(kind="plot", rp=0.5, ap=0.25, fs=8))
    out.append(dict(kind="plot", rp=1.0, ap=2.0, fs=1000))
    out.append(dict(kind="coll", fs=8))
    return out


def on_curve(S, p, n, case, r, c, a0):
    RT, AT = case["rp"] * case["fs"], case["ap"] * case["fs"]
    k = frac(S, n, RT)
    rad = S.ite(k <= 0.5, r[1] - (r[1] - r[0]) * 2 * k, r[0] + (r[1] - r[0]) * (2 * k - 1))
    S.eq("height of the center", p[2], c[2])
    ang = a0 + 2 * math.pi * frac(S, n, AT)
    S.eq("x: angle advances with the angular period, radius outer-inner-outer with the radial period", p[0], c[0] + rad * S.np.cos(ang))
    S.eq("y: angle advances with the angular period, radius outer-inner-outer with the radial period", p[1], c[1] + rad * S.np.sin(ang))


def frac(S, n, T):
    """n/T - floor(n/T)"""
    return (n % T) / T


def make(S, tr, case, tag=""):
    r = S.reals("r" + tag, (2,), 0, 3)
    S.assume(r[0] <= r[1])
    c = S.reals("c" + tag, (3,), -2, 2)
    a0 = S.real("a" + tag, -7, 7) if case["fs"] < 1000 and S.bool("angle" + tag) else 0
    kw = dict(start_angle=a0) if not (isinstance(a0, int) and a0 == 0) else {}
    t = tr.CircularTrajectory((r[0], r[1]), (c[0], c[1], c[2]), case.get("rp", 0.5), case.get("ap", 0.5), case["fs"], **kw)
    return t, r, c, a0


def run(S, case):
    tr = S.mod("aspsim.room.trajectory")
    if case["kind"] == "coll":
        n = S.cint("n", 0, 12)
        parts = []
        k = S.cint("k", 1, 3)
        for i in range(k):
            parts.append(make(S, tr, case, str(i))[0] if i % 2 == 0 else tr.LinearTrajectory(S.reals("q%d" % i, (1, 3)) + S.array([[0., 0., 0.], [1., 0., 0.]]), 1, 8))
        m = tr.TrajectoryCollection(parts)
        p = m.current_pos(n)
        S.check("one row per trajectory", tuple(p.shape) == (k, 3))
        for i in range(k):
            S.eq("row i follows trajectory i", p[i], parts[i].current_pos(n)[0])
        return
    t, r, c, a0 = make(S, tr, case)
    if case["kind"] == "plot":
        ax = Axis()
        t.plot(ax, "o", "name", 50)
        n = len(ax.x)
        per = max(case["rp"], case["ap"]) * case["fs"]
        S.check("something is plotted", n >= 2)
        step = max(1, int(per // 1000))
        for i in (0, 1, n // 2, n - 1):
            on_curve(S, [ax.x[i], ax.y[i], c[2]], i * step, case, r, c, a0)
        return
    n = S.choose("base", [0, 100000]) + S.cint("m", 0, int(2 * max(case["rp"], case["ap"]) * case["fs"]))
    if S.bool("other_first"):
        t.current_pos(3)
    p = t.current_pos(n)
    S.check("one position", tuple(p.shape) == (1, 3))
    on_curve(S, p[0], n, case, r, c, a0)
    d2 = (p[0, 0] - c[0]) ** 2 + (p[0, 1] - c[1]) ** 2
    q = t.current_pos(0)
    S.eq("starts at the outer radius", q[0, 0], c[0] + r[1] * S.np.cos(a0 + 0.0))


class Axis:
    def plot(self, x, y, **kw):
        self.x, self.y = list(x), list(y)
