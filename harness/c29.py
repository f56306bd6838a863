"""C29: figures show the recorded values at their time, channel and position."""
import numpy as np
from pathlib import Path
from . import common as K

ID = "C29"
BOUNDS = ("tot_samples <= 6 (quick) / 9, 1-2 channels, impulse responses of up to 2 x 2 x 3 taps, matrices up to 2 x 3, sound fields on grids of up to 2 x 3 (quick) / 3 x 3, once 4 x 5, runs of 30 samples with listed intervals, "
          "points in any order, grid origin and spacings (at least 0.01) symbolic; sample and state values symbolic")
STUBS = "matplotlib.pyplot is replaced by a recorder of what is drawn and where it is saved"


class Soft:
    """accepts everything"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self

    def __call__(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self

    def __iter__(self):
        return iter(())


SOFT = Soft()


class Axes:
    def __init__(self, S):
        self.S, self.curves, self.images, self.labels, self.legends = S, [], [], [], []
        self.spines = SOFT

    def plot(self, *a, label=None, **k):
        a = [v for v in a if not isinstance(v, str)]
        y = self.S.np.asarray(a[-1])
        y = y.reshape(-1, 1) if y.ndim == 1 else y
        x = self.S.np.asarray(a[0]) if len(a) > 1 else self.S.np.arange(y.shape[0])
        x = x.reshape(-1, 1) if x.ndim == 1 else x
        assert x.shape[0] == y.shape[0], "x and y must have same first dimension"
        for c in range(max(x.shape[1], y.shape[1])):
            self.curves.append((x[:, min(c, x.shape[1] - 1)].copy(), y[:, min(c, y.shape[1] - 1)].copy(), label))
            self.labels.append(label)
        return SOFT

    def imshow(self, im, extent=None, origin="upper", **k):
        im = self.S.np.asarray(im).copy()
        im = im.reshape(im.shape[:2])
        rows, cols = im.shape
        if extent is None:
            extent = (-0.5, cols - 0.5, rows - 0.5, -0.5) if origin == "upper" else (-0.5, cols - 0.5, -0.5, rows - 0.5)
        x0, x1, y0, y1 = extent
        if origin == "upper":
            im = im[::-1]
        self.images.append((im, (x0, x1, y0, y1)))       # first row at the lower edge
        return SOFT

    def matshow(self, m, **k):
        m = self.S.np.asarray(m).copy()
        self.images.append((m[::-1], None))
        return SOFT

    def get_legend_handles_labels(self):
        # as matplotlib: curves without a label are left out
        hl = [(i, l) for i, l in enumerate(self.labels) if l and not l.startswith("_")]
        return [i for i, l in hl], [l for i, l in hl]

    def legend(self, handles=None, labels=None, *a, **k):
        if labels is not None:
            self.legends.append((list(handles), [l.replace("\\_", "_") for l in labels]))
        return SOFT

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return SOFT


class Pyplot:
    def __init__(self, S):
        self.S = S
        self.figures = {}
        self.open = None

    def subplots(self, rows=1, cols=1, **k):
        ax = np.empty((rows, cols), dtype=object)
        for i in range(rows):
            for j in range(cols):
                ax[i, j] = Axes(self.S)
        self.open = ax
        out = ax[0, 0] if rows == cols == 1 else (ax[0] if rows == 1 else (ax[:, 0] if cols == 1 else ax))
        return SOFT, out

    def savefig(self, path, *a, **k):
        self.S.check("a figure is not overwritten", str(path) not in self.figures)
        self.figures[str(path)] = self.open

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return SOFT


def recorder(S):
    p = Pyplot(S)
    S.patch("aspsim.diagnostics.plot", "plt", p)
    S.patch("aspsim.diagnostics.soundfieldplot", "plt", p)
    return p


def cases(tier):
    T = tier != "quick"
    n = 6 if not T else 9
    base = dict(free=[("s", 2)], mics=[("m", 2)], ir=1, out="pdf", exp=[2, n], chunk=3, buf=4)
    return [
        dict(base, tot=n, bs=0, kind="signal"),
        dict(base, tot=n, exp=n, bs=0, kind="groups"),
        dict(base, tot=n, bs=2, kind="state"),
        dict(base, tot=n, exp=n, bs=2, kind="irs"),
        dict(base, tot=n, exp=n, bs=2, kind="matrix"),
        dict(base, tot=4, exp=4, chunk=2, bs=0, kind="field", grid=[2, 3]),
        dict(base, tot=30, exp=[9, 10], chunk=7, buf=9, bs=0, kind="signal", ivs=[(0, 30), (5, 22), (20, 30)]),
        dict(base, tot=30, exp=[9, 10], chunk=7, buf=9, bs=4, kind="state"),
        dict(kind="image", grid=(4, 5), perms="few"),
        dict(kind="image", grid=(2, 2)), dict(kind="image", grid=(1, 3)), dict(kind="image", grid=(3, 1)),
        dict(kind="image", grid=(2, 3), perms="some" if not T else "all"), dict(kind="image", grid=(3, 2), perms="some"), dict(kind="image", grid=(3, 3), perms="few"),
    ]


def figure(S, figs, folder, name, k):
    mine = [p for p in figs if Path(p).stem == "%s_%d" % (name, k)]
    S.check("one figure per export point", len(mine) == 1, "%s %d: %s" % (name, k, sorted(figs)))
    for ax in figs[mine[0]].ravel():
        if ax.legends:
            handles, labels = ax.legends[-1]
            first = {l: i for i, l in reversed(list(zip(*ax.get_legend_handles_labels())))}
            S.check("the legend names each label once", labels == list(dict.fromkeys(l for l in ax.labels if l)), "%s for %s" % (labels, ax.labels))
            S.check("the legend names the curve it shows", handles == [first[l] for l in labels], str(ax.legends))
    return figs[mine[0]]


def order(S, num, how):
    """an arbitrary order of num things"""
    if how == "all":
        left, out = list(range(num)), []
        while left:
            out.append(left.pop(S.cint("o%d" % len(out), 0, len(left) - 1)))
        return out
    rot = S.cint("rot", 0, num - 1 if how == "some" else 2)
    a, b = S.cint("swap", 0, num - 1), 0
    o = [(i + rot) % num for i in range(num)]
    if S.bool("back"):
        o = o[::-1]
    o[a], o[b] = o[b], o[a]
    return o


def run(S, case):
    kind = case["kind"]
    if kind == "image":
        return image(S, case)
    spec = K.resolve(S, case)
    tot, bs, exp = spec["tot"], spec["bs"], spec["exp"]
    core, dia, dplt = (S.mod("aspsim.diagnostics." + m) for m in ("core", "diagnostics", "plot"))
    if kind == "field":
        return field(S, case, spec, dia)
    pl = recorder(S)
    st, x, h = K.build(S, spec, base=S.scratch())
    sim = st.create_simulator()
    si = sim.sim_info
    X = x["s"]
    points = list(range(exp, tot + 1, exp))
    proc = None
    if bs:
        proc = K.processor(S, sim, bs)
        nb = tot // bs + 2
        shp = {"state": (2,), "irs": (S.cint("sets", 1, 2), S.cint("irs", 1, 2), 3), "matrix": (S.cint("rows", 1, 2), 3)}[kind]
        V = S.reals("V", (nb,) + shp)
        proc.box = S.array(V[0])

        def process(num, orig=proc.process):
            orig(num)
            proc.box = S.array(V[len(proc.calls) - 1])
        proc.process = process
        sim.add_processor(proc)
    if kind in ("signal", "groups"):
        a, b = 0, tot
        nm = S.choose("name", ["rec", "rec_s"]) if kind == "signal" else "rec"
        two = S.choose("two", ["two", "one_b", "on", "oneb"]) if kind == "groups" else None
        kw = {}
        if kind == "signal" and S.bool("interval"):
            if "ivs" in case:
                a, b = S.choose("ab", case["ivs"])
            else:
                a, b = S.cint("a", 0, tot - 1), S.cint("b", 1, tot)
                S.assume(a < b)
            kw["save_at"] = core.IntervalCounter([(a, b)])
        sim.diag.add_diagnostic(nm, dia.RecordSignal("s", si, num_channels=2, export_func="plot", **kw))
        sim.run_simulation()
        rec = sim.diag[nm]
        if kind == "groups":
            # the diagnostics of several processors in one figure
            other = dia.RecordSignal("s", si, num_channels=2, export_func="plot")
            other.signal = S.array(X[::-1, :tot])
            for d in (rec, other):
                d.plot_data["label_suffix_channel"] = ["a", "b"]
            pl.figures.clear()
            k = S.cint("k", 1, tot)
            dplt.function_of_time_plot("both", {"one": rec, two: other}, k, sim.folder_path, [lambda v: v * 2])
            ax = figure(S, pl.figures, sim.folder_path, "both", k)[0, 0]
            want = [(X[0], "one_a"), (X[1], "one_b"), (X[1], two + "_a"), (X[0], two + "_b")]
            S.check("one curve per channel and processor", len(ax.curves) == 4)
            for (cx, cy, lab), (w, l) in zip(ax.curves, want):
                S.check("curves carry the name of their processor and channel", lab == l, "%s %s" % (lab, l))
                S.eq("curve over its sample indices", cx, np.arange(k))
                S.eq("curve shows the preprocessed values", cy, w[:k] * 2)
            return
        S.check("no other figure", len([p for p in pl.figures if Path(p).name.startswith("rec")]) == len(points), str(sorted(pl.figures)))
        for k in points:
            fig = figure(S, pl.figures, sim.folder_path, nm, k)
            idx = [t for t in range(k) if a <= t < b]
            ax = fig[0, 0]
            if idx:
                S.check("one curve per channel", len(ax.curves) == 2, str(len(ax.curves)))
                for c, (cx, cy, lab) in enumerate(ax.curves):
                    S.eq("curve over its sample indices", cx, np.array(idx), "k=%d" % k)
                    S.eq("curve shows the recorded samples", cy, X[c, idx], "k=%d" % k)
                    S.check("curve is labelled", lab == nm, str(lab))
        return
    f = bs * S.cint("f", 1, 2)
    times = list(range(f, tot + 1, f))
    if kind == "state":
        sim.diag.add_diagnostic("st", dia.RecordState("box", 2, si, save_frequency=f, export_func="plot"))
        sim.run_simulation()
        for k in points:
            ax = figure(S, pl.figures, sim.folder_path, "st", k)[0, 0]
            due = [g for g in times if g - 1 < k]
            if due:
                S.check("one curve per entry of the state", len(ax.curves) == 2)
                for c, (cx, cy, lab) in enumerate(ax.curves):
                    S.eq("curve over the times of its values", cx, np.array([g - 1 for g in due]), "k=%d" % k)
                    S.eq("curve shows the recorded states", cy, S.array([V[g // bs - 1, c] for g in due]), "k=%d" % k)
        return
    if kind == "irs":
        sim.diag.add_diagnostic("ir", dia.RecordFilter("box", si, save_at=f, export_func="plot"))
        sim.run_simulation()
        for k in times:
            axes = figure(S, pl.figures, sim.folder_path, "ir", k)
            S.check("one panel per response", axes.shape == (1, shp[1]), str(axes.shape))
            for c in range(shp[1]):
                cur = axes[0, c].curves
                S.check("one curve per set", len(cur) == shp[0])
                for s, (cx, cy, lab) in enumerate(cur):
                    S.eq("curve over the taps", cx, np.arange(3))
                    S.eq("curve shows its response", cy, V[k // bs - 1, s, c], "k=%d set %d response %d" % (k, s, c))
        # two processors: one row each
        pl.figures.clear()
        if times:
            one = sim.diag["ir"]
            two = dia.RecordFilter("box", si, save_at=f, export_func="plot")
            two.prop = V[0] * 3
            dplt.plot_ir("both", {"one": one, "two": two}, 7, sim.folder_path, [])
            axes = figure(S, pl.figures, sim.folder_path, "both", 7)
            S.check("one row per processor", axes.shape == (2, shp[1]), str(axes.shape))
            for c in range(shp[1]):
                for s in range(shp[0]):
                    S.eq("first row: first processor", axes[0, c].curves[s][1], V[times[-1] // bs - 1, s, c])
                    S.eq("second row: second processor", axes[1, c].curves[s][1], V[0, s, c] * 3)
        return
    sim.diag.add_diagnostic("mat", dia.RecordFilter("box", si, save_at=f, export_func="matshow"))
    sim.run_simulation()
    for k in times:
        ax = figure(S, pl.figures, sim.folder_path, "mat", k)[0, 0]
        S.check("one matrix", len(ax.images) == 1)
        S.eq("matrix shown upright", ax.images[0][0][::-1], V[k // bs - 1], "k=%d" % k)


def lattice(S, rows, cols, o):
    """grid points in the order o: (positions, column of each, row of each)"""
    x0, y0 = S.real("x0", -2, 2), S.real("y0", -2, 2)
    dx, dy = S.real("dx", 0.01, 2), S.real("dy", 0.01, 2)
    ij = [(k // cols, k % cols) for k in o]
    pos = S.array([[x0 + dx * c, y0 + dy * r, 0.5] for r, c in ij])
    return pos, ij


def image(S, case):
    sfp = S.mod("aspsim.diagnostics.soundfieldplot")
    recorder(S)
    rows, cols = case["grid"]
    o = order(S, rows * cols, case.get("perms", "all"))
    pos, ij = lattice(S, rows, cols, o)
    flat = S.bool("flat") if rows * cols < 6 else False
    val = S.reals("v", (rows * cols, 2))
    p, s = sfp.sort_for_imshow(pos[:, :2] if flat else pos, val)
    S.check("one pixel per point", tuple(s.shape) == (rows, cols, 2) and tuple(p.shape)[:2] == (rows, cols), "%s %s" % (p.shape, s.shape))
    for k, (r, c) in enumerate(ij):
        S.eq("positions in rows of rising y, columns of rising x", p[r, c, :2], pos[k, :2], "point %d" % k)
        S.eq("image with the largest y on top shows each value at its position", s[rows - 1 - r, c], val[k], "point %d" % k)
    ax = Axes(S)
    sfp.sf_plot(ax, p, s[..., :1], "t")
    drawn(S, ax, pos, ij, rows, cols, val[:, 0])


def drawn(S, ax, pos, ij, rows, cols, val):
    S.check("one image", len(ax.images) == 1)
    im, (a, b, c, d) = ax.images[0]
    for k, (r, q) in enumerate(ij):
        S.eq("pixel of a point shows its value", im[r, q], val[k], "point %d" % k)
        if q == 0:
            S.eq("left edge", a, pos[k, 0])
        if q == cols - 1:
            S.eq("right edge", b, pos[k, 0])
        if r == 0:
            S.eq("lower edge", c, pos[k, 1])
        if r == rows - 1:
            S.eq("upper edge", d, pos[k, 1])


def field(S, case, spec, dia):
    """a sound field measured in a run"""
    rows, cols = case["grid"]
    n = rows * cols
    spec["mics"] = [("m", n)]
    tot = spec["tot"]
    h = {("s", "m"): S.array(np.array([[[1.0 + k] for k in range(n)], [[0.5 * k - 1.0] for k in range(n)]]))}
    st, x, h = K.build(S, spec, h=h, base=S.scratch())
    o = order(S, n, "some")
    ij = [(k // cols, k % cols) for k in o]
    pos = np.array([[0.1 * q - 0.3, 0.2 * r + 1.0, 0.5] for r, q in ij])
    st.arrays["m"].pos = S.array(pos)
    pl = recorder(S)
    sim = st.create_simulator()
    last = S.cint("last", 1, tot)
    sim.diag.add_diagnostic("field", dia.SoundfieldPower("m", sim.arrays["m"].pos, (0, last), sim.sim_info))
    sim.run_simulation()
    ax = figure(S, pl.figures, sim.folder_path, "field", last)[0, 0]
    X, H = x["s"], h["s", "m"]
    val = []
    for m in range(n):
        acc = 0.0
        for t in range(last):
            v = X[0, t] * float(H[0, m, 0]) + X[1, t] * float(H[1, m, 0])
            acc = acc + v * v / last
        val.append(acc)
    drawn(S, ax, S.array(pos), ij, rows, cols, S.array(val))
