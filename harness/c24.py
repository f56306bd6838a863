"""C24: derived diagnostics equal their defining formula on the recorded signals/states."""
from . import common as K

ID = "C24"
BOUNDS = "tot_samples <= 7 (quick) / 10, smoothing length <= 4, 2 channels, all admissible chunk/buffer/block sizes in range; sample and state values symbolic; plus runs of 20 to 40 samples with listed intervals and smoothing over 6 samples"
STUBS = "np.savez_compressed remembers its arguments; plots are empty; the denominator of power ratios has fixed values"


def cases(tier):
    T = tier != "quick"
    n = 6 if not T else 9
    base = dict(free=[("s", 2)], mics=[("m", 1)], ir=1, out="pdf", exp=n)
    return [
        dict(base, tot=n, chunk=[2, 4 + T], buf=[2, 4], bs=[0, 2], kind="power"),
        dict(base, tot=n, chunk=[2, 4 + T], buf=4, bs=0, kind="ratio"),
        dict(base, tot=n, chunk=[2, 4 + T], buf=4, bs=[0, 2], kind="field"),
        dict(base, tot=n, chunk=[2, 4], buf=4, bs=0, kind="smooth"),
        dict(base, tot=n, chunk=3, buf=4, bs=0, kind="filters", len=[1, 14 if not T else 24]),
        dict(base, tot=n, chunk=3, buf=4, bs=0, kind="order"),
        dict(base, tot=n + 2, exp=[2, n], chunk=[2, 4 + T], buf=4, bs=[2, 2 + T], kind="state"),
        # larger runs with fixed intervals and smoothing
        dict(base, tot=30, exp=30, chunk=7, buf=9, bs=[0, 4], kind="power", iv=[(0, 30), (6, 15), (7, 8), (29, 30)]),
        dict(base, tot=20, exp=20, chunk=6, buf=8, bs=0, kind="ratio", smooth=6),
        dict(base, tot=30, exp=30, chunk=7, buf=9, bs=[0, 4], kind="field", iv=[(0, 30), (5, 22), (7, 14)]),
        dict(base, tot=20, exp=20, chunk=[6, 7], buf=9, bs=0, kind="smooth", smooth=6, ks=[1, 7, 14, 20]),
        dict(base, tot=40, exp=[12, 14], chunk=[6, 7], buf=11, bs=4, kind="state"),
    ]


def interval(S, case, tot):
    if "iv" in case:
        return S.choose("iv", case["iv"])
    a, b = S.cint("a", 0, tot - 1), S.cint("b", 1, tot)
    S.assume(a < b)
    return a, b


def chans(S, which):
    return {"all": [0, 1], "0": [0], "1": [1], "10": [1, 0]}[which]


def selector(which):
    return {"all": slice(None), "0": [0], "1": slice(1, 2), "10": [1, 0]}[which]


def smoothed(S, vals, n):
    """causal moving average, zeros before the first value"""
    out = []
    for t in range(len(vals)):
        acc = 0.0
        for k in range(n):
            if t - k >= 0:
                acc = acc + vals[t - k] / n
        out.append(acc)
    return out


def filters(S, case):
    pp = S.mod("aspsim.diagnostics.preprocessing")
    n, k = S.cint("n", *case["len"]), S.cint("smooth", 1, 5)
    x = S.reals("x", (2, n))
    x0 = x.copy()
    f = pp.smooth(k)
    for again in range(2):
        y = f(x)
        S.check("smoothing keeps the length", tuple(y.shape) == (2, n), str(y.shape))
        for c in range(2):
            for t, v in enumerate(smoothed(S, [x0[c, t] for t in range(n)], k)):
                S.check("smoothing is the causal moving average", S.close(y[c, t], v), "n=%d k=%d t=%d" % (n, k, t))
    S.eq("smoothing leaves its input", x, x0)
    lg = S.choose("scale", ["linear", "db_power", "db_amplitude", "natural_log"])
    p = S.array([[S.real("p%d%d" % (c, t), 0.1, 10) for t in range(2)] for c in range(2)])
    want = dict(linear=lambda v: v, db_power=lambda v: 10 * S.np.log10(v), db_amplitude=lambda v: 20 * S.np.log10(v), natural_log=lambda v: S.np.log(v))[lg]
    y = getattr(pp, lg)(p)
    S.check("scales keep the shape", tuple(y.shape) == (2, 2))
    for c in range(2):
        for t in range(2):
            S.check("scales", S.close(y[c, t], want(p[c, t])), lg)


def run(S, case):
    if case["kind"] == "filters":
        return filters(S, case)
    spec = K.resolve(S, case)
    tot, kind, bs = spec["tot"], case["kind"], spec["bs"]
    core = S.mod("aspsim.diagnostics.core")
    dia = S.mod("aspsim.diagnostics.diagnostics")
    col = S.mod("aspsim.diagnostics.diagnosticscollection")
    pp = S.mod("aspsim.diagnostics.preprocessing")
    if kind == "ratio":
        spec["free"] = [("s", 2), ("d", 2)]
    n_smooth = case["smooth"] if "smooth" in case else S.cint("smooth", 1, 3) if kind in ("ratio", "smooth", "order") else 1
    x0 = None
    if kind == "ratio":
        n = K.num_source_samples(spec)
        x0 = {"d": S.array([[1.0 + (i * 3) % 5 for i in range(n)], [2.0 + (i * 5) % 3 for i in range(n)]])}
    st, x, h = K.build(S, spec, x=x0, base=S.scratch())
    st.sim_info.output_smoothing = n_smooth
    sim = st.create_simulator()
    si = sim.sim_info
    X = x["s"]
    name = "dia"
    state = None
    if bs:
        proc = K.processor(S, sim, bs)
        if kind == "state":
            nb = tot // bs + 2
            A = S.reals("A", (nb, 2))
            B = S.reals("B", (nb, 2))

            def untouched(before):
                j = len(proc.calls) - 1 - before
                if j >= 0:
                    S.eq("diagnostics leave the state as it is", proc.box["a"], A[j])
                    S.eq("diagnostics leave the state as it is", proc.box["b"], B[j])

            def process(num, orig=proc.process):
                orig(num)
                j = len(proc.calls) - 1
                untouched(1)
                proc.box = dict(a=S.array(A[j]), b=S.array(B[j]), z=S.array([A[j, i] + 1j * B[j, i] for i in range(2)]))
            proc.process = process
            proc.box = dict(a=S.array([0.0, 0.0]), b=S.array([0.0, 0.0]), z=S.array([0j, 0j]))
        sim.add_processor(proc)

    def power(chs, t, X=X):
        acc = 0.0
        for c in chs:
            acc = acc + X[c, t] * X[c, t]
        return acc / len(chs)

    if kind == "power":
        which = S.choose("channels", ["all", "0", "1", "10"])
        chs = chans(S, which)
        kw = {}
        a, b = 0, tot
        if S.bool("interval"):
            a, b = interval(S, case, tot)
            kw["save_at"] = core.IntervalCounter([(a, b)])
        sim.diag.add_diagnostic(name, dia.SignalPower("s", si, export_func="npz", sig_channels=selector(which), **kw))
        sim.run_simulation()
        out = sim.diag[name].get_output()
        S.check("one value per sample of the run", tuple(out.shape) == (tot,))
        for t in range(tot):
            if a <= t < b:
                S.check("power is the mean square over the selected channels", S.close(out[t], power(chs, t)), "t=%d" % t)
            else:
                S.check("nothing outside the record interval", S.is_nan(out[t]), "t=%d" % t)
    elif kind == "ratio":
        w1, w2 = S.choose("num", ["all", "1"]), S.choose("den", ["all", "0"])
        sim.diag.add_diagnostic(name, dia.SignalPowerRatio("s", "d", si, export_func="npz", numerator_channels=selector(w1), denom_channels=selector(w2)))
        sim.run_simulation()
        out = sim.diag[name].get_output()
        num = smoothed(S, [power(chans(S, w1), t) for t in range(tot)], n_smooth)
        den = smoothed(S, [power(chans(S, w2), t, x["d"]) for t in range(tot)], n_smooth)
        for t in range(tot):
            S.check("ratio of the smoothed powers", S.close(out[t] * den[t], num[t]), "t=%d" % t)
    elif kind == "field":
        a, b = interval(S, case, tot)
        sim.diag.add_diagnostic(name, dia.SoundfieldPower("s", K.pos(2), (a, b), si, export_func="npz"))
        sim.diag.add_diagnostic("mean", col.SignalSummary("s", si, (a, b)))
        texts = {}

        class Json:
            @staticmethod
            def dump(obj, f):
                texts[f.name.rsplit("/")[-1]] = obj
        S.patch("aspsim.diagnostics.plot", "json", Json)
        sim.diag.add_diagnostic("early", col.SignalSummary("s", si, (a, b), summary_func=lambda sig: 2 * S.mod("aspsim.diagnostics.preprocessing").np.sum(sig)))
        sim.run_simulation()
        out = sim.diag[name].get_output()
        tots = 0.0
        for c in range(2):
            acc = 0.0
            for t in range(a, b):
                acc = acc + X[c, t] * X[c, t]
                tots = tots + X[c, t]
            S.check("sound field power is the mean square over the samples asked for", S.close(out[c], acc / (b - a)), "c=%d" % c)
        S.check("signal summary is the sum over channels divided by the number of samples", S.close(sim.diag["mean"].get_output(), tots / (b - a)))
        S.check("signal summary of a summing function", S.close(sim.diag["early"].get_output(), 2 * tots / (b - a)))
        S.check("text exports", sorted(texts) == ["early_%d.json" % b, "mean_%d.json" % b], str(sorted(texts)))
        S.check("text export holds the summary", S.close(texts["mean_%d.json" % b]["mean"], tots / (b - a)))
        files = [f for f in S.exports(sim.folder_path) if f.startswith(name + "_")]
        S.check("exported once, after its last sample", files == ["%s_%d.npz" % (name, b)], str(files))
    elif kind in ("smooth", "order"):
        k = S.choose("k", case["ks"]) if "ks" in case else S.cint("k", 1, tot)
        lo, hi = (-0.5, 0.25)
        steps = {"smooth": ["s"], "order": ["s", "c"]}[kind]
        if kind == "order" and S.bool("clip_first"):
            steps = ["c", "s"]
        fs = [pp.smooth(n_smooth) if s == "s" else pp.clip(lo, hi) for s in steps]
        sim.diag.add_diagnostic(name, dia.RecordSignal("s", si, num_channels=2, export_func="npz", preprocess=[fs], export_at=[k]))
        sim.run_simulation()
        out = S.exports(sim.folder_path)["%s_%d.npz" % (name, k)][name]
        S.check("shape", tuple(out.shape) == (2, k), str(out.shape))
        for c in range(2):
            v = [X[c, t] for t in range(k)]
            for s in steps:
                if s == "s":
                    v = smoothed(S, v, n_smooth)
                else:
                    v = [S.ite(u < lo, lo, S.ite(u > hi, hi, u)) for u in v]
            for t in range(k):
                S.check("preprocessing steps applied in order to what was recorded before the export", S.close(out[c, t], v[t]), "c=%d t=%d" % (c, t))
    else:
        f = bs * S.cint("f", 1, 2)
        kw = dict(save_frequency=f, export_func="npz")
        sim.diag.add_diagnostic("pow", dia.StatePower("box['a']", si, **kw))

        def wsum(a, b=None):
            return a[0] - 2 * a[1] + (0 if b is None else 3 * b[0] - b[1])
        sim.diag.add_diagnostic("sum", dia.StateSummary(wsum, "box['b']", si, **kw))
        sim.diag.add_diagnostic("cmp", dia.StateComparison(wsum, "box['a']", "box['b']", si, **kw))
        sim.diag.add_diagnostic("cpow", dia.StatePower("box['z']", si, **kw))
        sim.diag.add_diagnostic("diff", dia.RecordFilterDifference("box['a']", "box['b']", si, save_at=f, export_func="npz"))
        sim.run_simulation()
        untouched(0)
        times = list(range(f, tot + 1, f))
        o = {n: d.get_output() for n, d in sim.diag.items()}
        for i, g in enumerate(times):
            j = g // bs - 1
            a, b = A[j], B[j]
            S.check("state power is the mean square of the state", S.close(o["pow"][i], (a[0] * a[0] + a[1] * a[1]) / 2), "i=%d" % i)
            S.check("state power of complex states", S.close(o["cpow"][i], (a[0] * a[0] + a[1] * a[1] + b[0] * b[0] + b[1] * b[1]) / 2), "i=%d" % i)
            S.check("state summary is the function of the state", S.close(o["sum"][i], b[0] - 2 * b[1]), "i=%d" % i)
            S.check("state comparison is the function of both states in order", S.close(o["cmp"][i], a[0] - 2 * a[1] + 3 * b[0] - b[1]), "i=%d" % i)
        j = times[-1] // bs - 1 if times else None
        if j is not None:
            S.eq("filter difference is first minus second", o["diff"], A[j] - B[j], "j=%d" % j)
        ex = spec["exp"]
        files = S.exports(sim.folder_path)
        for k in range(ex, tot + 1, ex):
            fn = "pow_%d.npz" % k
            S.check("state diagnostics are exported at the export frequency", fn in files, fn)
            m = len([g for g in times if g - 1 < k])
            S.check("exports hold the values before the export index", tuple(files[fn]["pow"].shape)[-1] == m, "%s %d" % (files[fn]["pow"].shape, m))
        S.check("no other export", len([f for f in files if f.startswith("pow_")]) == tot // ex, str(sorted(files)))
