"""C33: the overview figure of a simulation shows every array where it is."""
import numpy as np
from pathlib import Path
from . import common as K
from . import c29
from . import room as R

ID = "C33"
BOUNDS = ("up to 6 arrays of 1-3 elements in any order, every kind of array, region and trajectory; positions, sizes and centres symbolic; simulation lengths 0..14 against segment times "
          "of the trajectories")
STUBS = "matplotlib is replaced by a recorder of what is drawn and where it is saved; pyroomacoustics room by a generic function"


class Axes(c29.Axes):
    def __init__(self, S):
        super().__init__(S)
        self.patches, self.legends = [], 0

    def scatter(self, x, y, *a, label=None, **k):
        return self.plot(x, y, label=label)

    def add_patch(self, p):
        self.patches.append(p)
        return p
    add_artist = add_patch


class Patches:
    class Rectangle:
        def __init__(self, xy, width, height, label=None, **k):
            self.v = [xy[0], xy[1], width, height]
            self.label, self.kind, self.k = label, "box", k

    class Circle:
        def __init__(self, xy, radius=5, label=None, **k):
            if len(xy) != 2:
                raise ValueError("a centre has two coordinates")
            self.v = [xy[0], xy[1], radius]
            self.label, self.kind, self.k = label, "circle", k


class Pyplot(c29.Pyplot):
    def subplots(self, *a, **k):
        assert not a
        ax = Axes(self.S)
        self.open = ax
        return c29.SOFT, ax

    def gca(self):
        return self.open


def cases(tier):
    T = tier != "quick"
    return [dict(kind="static", n=[1, 3 if T else 2]), dict(kind="regions"), dict(kind="moving", tot=[1, 14]), dict(kind="circle", m=[2, 9 if T else 6]), dict(kind="none")]


def config(S, **k):
    return dict(dict(tot_samples=4, sim_chunk_size=4, sim_buffer=4, plot_output="pdf", reverb="none", samplerate=10, c=343.0, rt60=0.25,
                     room_size=[4.0, 5.0, 3.0], room_center=[0.5, -0.25, 1.0], randomized_ism=False, extra_delay=12, highpass_cutoff=0.0, max_room_ir_length=2,
                     array_update_freq=2), **k)


def setup(S, cfg):
    import pathlib
    base = S.scratch()
    st = S.setup(**cfg)
    st.base_fig_path = base
    return st, base


def drawn(S, st):
    p = Pyplot(S)
    for m in ("aspsim.array", "aspsim.diagnostics.plot"):
        S.patch(m, "plt", p)
    for m in ("aspsim.array", "aspsim.room.region"):
        if hasattr(S.mod(m), "patches"):
            S.patch(m, "patches", Patches)
    sim = st.create_simulator()
    files = {f: v for f, v in p.figures.items() if "array_pos" in Path(f).name}
    return sim, files


def only(S, sim, files):
    S.check("one overview figure, in the folder of the simulation", [str(f) for f in files] == [str(sim.folder_path.joinpath("array_pos.pdf"))], str(sorted(files)))
    return next(iter(files.values()))


def shown(S, ax, name, x, y):
    cs = [c for c in ax.curves if c[2] == name]
    S.check("every array is drawn once", len(cs) == 1, "%s: %s" % (name, ax.labels))
    cx, cy, _ = cs[0]
    S.check("all elements are drawn", len(cx) == len(x), "%s %d %d" % (name, len(cx), len(x)))
    S.eq("elements are drawn at their first coordinate", S.array(list(cx)), S.array(list(x)), name)
    S.eq("elements are drawn at their second coordinate", S.array(list(cy)), S.array(list(y)), name)


def room(S, ax, cfg, ism):
    boxes = [p for p in ax.patches if p.label is None]
    S.check("the walls are drawn if a path comes from the room", len(boxes) == (1 if ism else 0), "%d" % len(boxes))
    if ism and boxes:
        sz, c = cfg["room_size"], cfg["room_center"]
        S.eq("the walls are those of the room", S.array(boxes[0].v), S.array([c[0] - sz[0] / 2, c[1] - sz[1] / 2, sz[0], sz[1]]))


WRITTEN = {}


def listed(S, sim, name):
    f = sim.folder_path.joinpath(name)
    S.check("written next to the figure", f.is_file(), name)
    if S.symbolic:
        return WRITTEN.get(str(f), {})
    import json
    return json.loads(f.read_text())


def texts(S, sim, pos, types):
    """the readable lists of positions and path types"""
    got = listed(S, sim, "array_pos.json")
    S.check("all arrays are listed, in order", list(got) == list(pos), "%s" % list(got))
    for k in pos:
        if pos[k] is not None:
            S.eq("positions are listed", S.array(got[k]), S.array([list(r) for r in pos[k]]), k)
    info = listed(S, sim, "metadata_paths.json")
    S.check("all paths are listed with their type", {k: v["type"] for k, v in info.items()} == types, "%s" % info)
    nums = listed(S, sim, "metadata_arrays.json")
    S.check("number of elements is listed", {k: v["number"] for k, v in nums.items()} == {k: len(got[k]) for k in got}, "%s" % nums)


class Numbers:
    """draws that do not matter here"""
    def __init__(self, S, seed):
        self.S, self.r = S, np.random.default_rng(seed)

    def __deepcopy__(self, memo):
        return self

    def uniform(self, low=0.0, high=1.0, size=None):
        num = lambda v: np.array(list(v), dtype=float) if np.ndim(v) else float(v)
        return self.S.array(self.r.uniform(num(low), num(high), size))


def run(S, case):
    kind = case["kind"]
    R.storage(S)
    if S.symbolic:
        import copy
        S.patch("json", "dump", lambda obj, f, *a, **k: (WRITTEN.__setitem__(f.name, copy.deepcopy(obj)), f.write("{}"))[1])
    arr = S.mod("aspsim.array")
    reg = S.mod("aspsim.room.region")
    trj = S.mod("aspsim.room.trajectory")
    if kind == "static":
        R.install(S, lambda i, j: 2)
        cfg = config(S, room_size=[S.real("z%d" % i, 2, 9) for i in range(3)], room_center=[S.real("o%d" % i, -3, 3) for i in range(3)], reverb=S.choose("reverb", ["none", "ism", "direct"]))
        st, base = setup(S, cfg)
        n = S.cint("n", *case["n"])
        P = {}
        for k in (["f", "c", "m", "k"], ["m", "c", "k", "f"])[S.cint("order", 0, 1)]:
            pos = S.reals("p" + k, (n, 3))
            P[k] = pos.copy()
            if k == "f":
                st.add_free_source("f", pos, K.ListSource(S, S.array([[0.0]] * n)))
            elif k == "c":
                st.add_controllable_source("c", pos)
            else:
                st.add_mics(k, pos)
        one = S.choose("one", [None, "ism", "none", "modified"])
        if one == "modified":
            st.set_path("f", "k", S.array([[[1.0]] * n] * n))
        elif one:
            st.arrays.set_path_types(dict(f=dict(k=one)))
        sim, files = drawn(S, st)
        ax = only(S, sim, files)
        for k in P:
            shown(S, ax, k, P[k][:, 0], P[k][:, 1])
        S.check("nothing else is drawn", len(ax.curves) == 4)
        types = {a + "->" + b: cfg["reverb"] for a in "fc" for b in "mk"}
        if one:
            types["f->k"] = one
        texts(S, sim, P, types)
        room(S, ax, cfg, cfg["reverb"] == "ism" or one == "ism")
    elif kind == "regions":
        cfg = config(S)
        st, base = setup(S, cfg)
        st.add_free_source("f", K.pos(1, 1), K.ListSource(S, S.array([[0.0]])))
        c, d = S.reals("c", (3,)), [S.real("d%d" % i, 0.25, 0.5) for i in range(3)]
        sort = S.choose("sort", ["cuboid", "rectangle", "disc", "ball", "cylinder", "two", "flat"])
        if sort == "two":            # positions decide whether regions overlap
            c = S.choose("c", [[0.25, -0.5, 1.0], [-3.0, 2.0, 0.5]])
        C = [c[0], c[1], c[2]]
        sp = 10.0
        box = [c[0] - d[0] / 2, c[1] - d[1] / 2, d[0], d[1]]
        want = dict(cuboid=[box], rectangle=[box], flat=[box], disc=[[c[0], c[1], d[0]]], ball=[[c[0], c[1], d[0]]], cylinder=[[c[0], c[1], d[0]]],
                    two=[[c[0], c[1], 0.25], [c[0] + 4.75, c[1] - 0.375, 0.5, 0.75]])[sort]
        r = dict(cuboid=lambda: reg.Cuboid(d, C, (sp,) * 3), rectangle=lambda: reg.Rectangle(d[:2], C, (sp, sp)), flat=lambda: reg.Rectangle(d[:2], C[:2], (sp, sp), spatial_dim=2),
                 disc=lambda: reg.Disc(d[0], C, (sp, sp)), ball=lambda: reg.Ball(d[0], C, (sp,) * 3), cylinder=lambda: reg.Cylinder(d[0], d[1], C, (sp,) * 3),
                 two=lambda: [reg.Ball(0.25, (c[0], c[1], c[2]), (0.25,) * 3, Numbers(S, 1)), reg.Cuboid((0.5, 0.75, 0.25), (c[0] + 5.0, c[1], c[2]), (0.25,) * 3, Numbers(S, 2))])[sort]()
        pos = K.pos(2, 3)
        a = [arr.RegionArray("r", r, pos)]
        for x in a:
            st.arrays.add_array(x)
        sim, files = drawn(S, st)
        ax = only(S, sim, files)
        ps = [p for p in ax.patches if p.label == "r"]
        S.check("every part of the region is drawn", len(ps) == len(want) and len(ax.patches) == len(want), "%d %s" % (len(ps), sort))
        for p, w in zip(ps, want):
            S.check("with its shape", len(p.v) == len(w), sort)
            S.eq("where it is, as large as it is", S.array(p.v), S.array(w), sort)
        shown(S, ax, "f", [K.pos(1, 1)[0, 0]], [K.pos(1, 1)[0, 1]])
    elif kind == "moving":
        tot = S.cint("tot", *case["tot"])
        st, base = setup(S, config(S, tot_samples=tot))
        st.add_free_source("f", K.pos(1, 1), K.ListSource(S, S.array([[0.0]])))
        o = S.reals("o", (2, 2))
        # 12 samples per period at 10 Hz, legs of 3, 4, 5 (3, 4, 5 samples at constant speed; 4 each at constant time)
        mode = S.choose("mode", ["constant_speed", "constant_time"])
        base_pts = [[0.0, 0.0], [3.0, 0.0], [3.0, 4.0], [0.0, 0.0]]
        reach = [0, 3, 7, 12] if mode == "constant_speed" else [0, 4, 8, 12]

        def traj(k):
            return trj.LinearTrajectory([[x + o[k][0], y + o[k][1], 1.0] for x, y in base_pts[:3]], 1.2, 10, mode)
        two = S.bool("two")
        T = trj.TrajectoryCollection([traj(0), traj(1)]) if two else traj(0)
        st.add_mics("m", T)
        sim, files = drawn(S, st)
        ax = only(S, sim, files)
        cs = [c for c in ax.curves if c[2] == "m"]
        S.check("every trajectory is drawn once", len(cs) == (2 if two else 1), "%d" % len(cs))
        for k, (cx, cy, _) in enumerate(cs):
            pts = [p for p, r in zip(base_pts, reach) if r <= tot]
            # corner times are quotients of floats
            unsure = tot in reach[1:]
            if unsure and len(cx) == len(pts) - 1:
                pts = pts[:-1]
            S.check("the corners reached during the simulation", len(cx) == len(pts), "tot=%d %s: %d" % (tot, mode, len(cx)))
            S.eq("corners are drawn where they are", S.array(list(cx) + list(cy)), S.array([p[0] + o[k][0] for p in pts] + [p[1] + o[k][1] for p in pts]))
        shown(S, ax, "f", [K.pos(1, 1)[0, 0]], [K.pos(1, 1)[0, 1]])
        texts(S, sim, dict(f=K.pos(1, 1), m=[[o[k][0], o[k][1], 1.0] for k in range(1 + two)]), {"f->m": "none"})
    elif kind == "circle":
        m = S.cint("m", *case["m"])          # samples per lap
        st, base = setup(S, config(S))
        st.add_free_source("f", K.pos(1, 1), K.ListSource(S, S.array([[0.0]])))
        c = S.reals("c", (3,))
        slow = S.bool("slow")
        t = trj.CircularTrajectory((0.5, 1.5), (c[0], c[1], c[2]), m / 10 * (2 if slow else 1), m / 10, 10)
        st.add_mics("m", t)
        sim, files = drawn(S, st)
        ax = only(S, sim, files)
        cs = [v for v in ax.curves if v[2] == "m"]
        S.check("the trajectory is drawn once", len(cs) == 1)
        cx, cy, _ = cs[0]
        n = m * (2 if slow else 1)
        S.check("a whole round is drawn", n <= len(cx) <= n + 1, "%d %d" % (n, len(cx)))
        for i in range(n):
            p = i / n
            rad = 0.5 + 1.0 * (1 - 2 * p if p < 0.5 else 2 * p - 1)
            a = 2 * np.pi * i / m
            S.eq("points on the trajectory", S.array([cx[i], cy[i]]), S.array([c[0] + rad * float(np.cos(a)), c[1] + rad * float(np.sin(a))]))
    else:
        how = S.choose("how", ["none", "nofolder"])
        st, base = setup(S, config(S, plot_output="none" if how == "none" else "pdf"))
        if how == "nofolder":
            st.base_fig_path = None
        st.add_free_source("f", K.pos(1, 1), K.ListSource(S, S.array([[0.0]])))
        st.add_mics("m", K.pos(2, 3))
        sim, files = drawn(S, st)
        S.check("no figure is saved", not files, str(files))
