"""C32: spectrum and eigenvalue diagnostics analyse exactly the requested data."""
import numpy as np
from pathlib import Path
from . import common as K
from . import c29

ID = "C32"
BOUNDS = ("tot_samples <= 6 (quick) / 9, block, chunk and buffer sizes in range, real and complex 2 x 2 and real 3 x 3 matrices, all index ranges, all sample ranges and segment lengths up to 6, 2 channels; once more 4 x 4 matrices and signals over 24 samples; "
          "samples and matrix entries symbolic")
STUBS = ("eigenvalues and Welch spectra are uninterpreted functions of everything they are computed from (in replays the real ones); matplotlib.pyplot is replaced by a recorder")


def cases(tier):
    T = tier != "quick"
    n = 6 if not T else 9
    base = dict(free=[("s", 2)], mics=[("m", 1)], ir=1, out="pdf")
    return [
        dict(base, tot=n, exp=[2, n], chunk=[2, 4 + T], buf=4, bs=[2, 2 + T], kind="eig", dim=2),
        dict(base, tot=4, exp=2, chunk=3, buf=4, bs=2, kind="eig", dim=3),
        dict(base, tot=4, exp=2, chunk=3, buf=4, bs=2, kind="eig", dim=2, complex=True),
        dict(base, tot=n, exp=n, chunk=[2, 4 + T], buf=4, bs=[0, 2], kind="spectrum"),
        dict(base, tot=4, exp=2, chunk=3, buf=4, bs=2, kind="refuse"),
        dict(base, tot=24, exp=24, chunk=7, buf=9, bs=[0, 4], kind="spectrum", ivs=[(0, 24), (6, 15), (13, 24)], segs=[4, 9]),
        dict(base, tot=24, exp=9, chunk=7, buf=9, bs=4, kind="eig", dim=4),
    ]


class Lin:
    """scipy.linalg with eigenvalues as generic functions of the matrix"""
    def __init__(self, S):
        self.S = S

    def values(self, mat):
        from symex import sym as Y
        mat = self.S.np.asarray(mat)
        n = mat.shape[0]
        e = [v for i in range(n) for j in range(i + 1) for v in ((mat[i, j].real, mat[i, j].imag) if j < i else (mat[i, j].real,))]
        return [Y.uf("eig%d_%d" % (n, k), *e) for k in range(n)]

    def eigh(self, a, b=None, *, lower=True, eigvals_only=False, subset_by_index=None, **k):
        if b is not None or not eigvals_only or k.get("subset_by_value") is not None:
            raise NotImplementedError
        v = self.values(a)
        if subset_by_index is not None:
            lo, hi = subset_by_index
            v = v[lo:hi + 1]
        return self.S.array(v)

    def eigvalsh(self, a, b=None, **k):
        return self.eigh(a, b, eigvals_only=True, **k)


class Sig:
    """scipy.signal with Welch spectra as generic functions of the signal and the settings"""
    def __init__(self, S, real):
        self.S, self.real = S, real

    def __getattr__(self, n):
        return getattr(self.real, n)

    def welch(self, x, fs=1.0, window="hann", nperseg=None, noverlap=None, nfft=None, detrend="constant", return_onesided=True, scaling="density", axis=-1, average="mean"):
        from symex import sym as Y
        x = self.S.np.moveaxis(self.S.np.asarray(x), axis, -1)
        nperseg = 256 if nperseg is None else nperseg
        nperseg = min(nperseg, x.shape[-1])
        name = "welch_%s" % "_".join(str(v) for v in (fs, window, nperseg, noverlap, nfft, detrend, return_onesided, scaling, average, x.shape[-1]))
        m = nperseg // 2 + 1
        out = [[Y.uf("%s_%d" % (name, k), *list(row)) for k in range(m)] for row in x]
        return np.arange(m) * fs / nperseg, self.S.array(out)


def run(S, case):
    kind = case["kind"]
    spec = K.resolve(S, case)
    tot, bs, exp = spec["tot"], spec["bs"], spec["exp"]
    name = "aspsim.diagnostics.diagnosticscollection"
    col = S.mod(name)
    if S.symbolic:
        S.patch(name, "splin", Lin(S))
        S.patch(name, "spsig", Sig(S, col.spsig))
    st, x, h = K.build(S, spec, base=S.scratch())
    sim = st.create_simulator()
    si = sim.sim_info
    if kind == "refuse":
        proc = K.processor(S, sim, bs)
        a, b = S.real("a", -9, 9), S.real("b", -9, 9)
        if S.bool("complex"):
            # all entries complex: not hermitian if the parts are not opposite to each other, or the diagonal is not real
            c = S.real("c", -9, 9)
            S.assume(S.or_(a + b > 0.01, a + b < -0.01, c > 0.01, c < -0.01))
            proc.box = S.array([[1.0 + 1j * c, 3.0 + 1j * a], [3.0 + 1j * b, 2.0 + 0j]])
        else:
            S.assume(S.or_(a - b > 0.01, b - a > 0.01))
            proc.box = S.array([[1.0, a], [b, 2.0]])
        d = col.Eigenvalues("box", si, save_at=2, export_func="npz") if S.bool("instant") else col.EigenvaluesOverTime("box", (0, 0), si, save_frequency=2, export_func="npz")
        S.check("a matrix that is not hermitian is refused", S.raises(lambda: d.save(proc, {}, (0, 1), (1, 2))))
        return
    if kind == "spectrum":
        return spectrum(S, spec, sim, x["s"], col)
    dim = case["dim"]
    proc = K.processor(S, sim, bs)
    nb = tot // bs + 2
    E = S.reals("E", (nb, dim, dim))
    if case.get("complex"):
        F = S.reals("F", (nb, dim, dim))

        def entry(j, r, c):
            v = E[j][max(r, c), min(r, c)]
            return v if r == c else v + (1j if r > c else -1j) * F[j][max(r, c), min(r, c)]
        mats = [S.array([[entry(j, r, c) for c in range(dim)] for r in range(dim)]) for j in range(nb)]
    else:
        mats = [S.array([[E[j][max(r, c), min(r, c)] for c in range(dim)] for r in range(dim)]) for j in range(nb)]
    proc.box = {"R": mats[0]}

    def process(num, orig=proc.process):
        orig(num)
        proc.box["R"] = mats[len(proc.calls) - 1]
    proc.process = process
    sim.add_processor(proc)
    f = bs * S.cint("f", 1, 2)
    lo = S.cint("lo", 0, dim - 1)
    hi = S.cint("hi", 0, dim - 1)
    S.assume(lo <= hi)
    size = S.bool("abs")
    kw = dict(abs_value=True) if size else {}
    rng = (lo, hi) if S.bool("tuple") else [lo, hi]
    sim.diag.add_diagnostic("time", col.EigenvaluesOverTime("box['R']", rng, si, save_frequency=f, export_func="npz", **kw))
    sim.diag.add_diagnostic("all", col.Eigenvalues("box['R']", si, save_at=f, export_func="npz", **kw))
    sim.run_simulation()
    eig = (lambda m: Lin(S).values(m)) if S.symbolic else (lambda m: list(np.linalg.eigvalsh(m)))
    fix = (lambda v: S.ite(v < 0, -v, v)) if size else (lambda v: v)
    times = list(range(f, tot + 1, f))
    files = S.exports(sim.folder_path)
    out = sim.diag["time"].get_output()
    S.check("one row per eigenvalue, a column for every save time", out.shape[0] == hi - lo + 1 and out.shape[1] >= len(times), "%s %s" % (out.shape, times))
    for i in range(len(times), out.shape[1]):
        S.check("no value without its save time", S.is_nan(out[0, i]))
    want = {g: [fix(v) for v in eig(mats[g // bs - 1])] for g in times}
    for i, g in enumerate(times):
        for r in range(lo, hi + 1):
            S.eq("eigenvalues of the range asked for, ascending, at their time", out[r - lo, i], want[g][r], "f=%d g=%d" % (f, g))
        fn = "all_%d.npz" % g
        S.check("exported at its save time", fn in files, "%s %s" % (fn, sorted(files)))
        if fn in files:
            v = files[fn]["all"]
            S.check("one response per matrix", tuple(v.shape) == (1, 1, dim), str(v.shape))
            S.eq("all eigenvalues at that time", v[0, 0], S.array(want[g]), "f=%d g=%d" % (f, g))
    S.check("times of the values", [int(v) for v in sim.diag["time"].time_indices[:len(times)]] == [g - 1 for g in times])
    for k in range(exp, tot + 1, exp):
        m = len([g for g in times if g - 1 < k])
        v = files["time_%d.npz" % k]["time"]
        S.check("exports hold the values before the export index", tuple(v.shape) == (hi - lo + 1, m), "%s %d" % (v.shape, m))


def spectrum(S, spec, sim, X, col):
    si, tot = sim.sim_info, spec["tot"]
    pl = c29.recorder(S)
    if spec["bs"]:
        sim.add_processor(K.processor(S, sim, spec["bs"]))
    if "ivs" in spec:
        a, b = S.choose("ab", spec["ivs"])
    else:
        a, b = S.cint("a", 0, tot - 1), S.cint("b", 1, tot)
        S.assume(a < b)
    chs = S.choose("channels", [None, [1], [1, 0, 1]])
    seg = S.choose("seg", spec["segs"]) if "segs" in spec else S.cint("seg", 1, 6)
    S.assume(seg <= b - a)
    kw = {} if chs is None else dict(sig_channels=chs)
    num = 2 if chs is None else len(chs)
    sim.diag.add_diagnostic("sp", col.SignalPowerSpectrum("s", si, (a, b), num, seg, **kw))
    sim.run_simulation()
    data = S.array(X[[0, 1] if chs is None else chs, a:b])
    if S.symbolic:
        f, p = Sig(S, None).welch(data, si.samplerate, nperseg=seg, scaling="spectrum")
    else:
        import scipy.signal
        f, p = scipy.signal.welch(np.asarray(data, dtype=float), si.samplerate, nperseg=seg, scaling="spectrum")
    m = seg // 2 + 1
    want = []
    for k in range(m):
        acc = 0.0
        for c in range(num):
            acc = acc + p[c, k] / num
        want.append(acc)
    out = sim.diag["sp"].get_output()
    S.check("one value per frequency", tuple(out.shape) == (m,), str(out.shape))
    S.eq("mean spectrum of the samples asked for", out, S.array(want), "a=%d b=%d" % (a, b))
    figs = {Path(p).stem: v for p, v in pl.figures.items() if Path(p).stem.startswith("sp_")}
    S.check("drawn once, when the last sample is there", sorted(figs) == ["sp_%d" % b], str(sorted(figs)))
    if figs:
        cur = figs["sp_%d" % b][0, 0].curves
        S.check("one curve", len(cur) == 1)
        S.eq("the figure shows the spectrum", cur[0][1], S.array(want))
