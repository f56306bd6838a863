"""C04: exported files: which exist, and what they contain."""
from . import common as K

ID = "C04"
BOUNDS = "tot_samples <= 9 (quick) / 13, export frequency 1..tot+1, explicit export lists, record intervals, with/without processor; sample values symbolic; plus fixed runs of 40 and 120 samples; two diagnostics with names that begin alike, several export functions with their own preprocessing of up to 4 steps"
STUBS = "np.savez_compressed writes a marker file and remembers its arguments"


# preprocessing steps, in this order (the same step may come twice): 4 v + 3
_double, _plus = (lambda v: v * 2), (lambda v: v + 1)
PRE = [_double, _plus, _double, _plus]


def cases(tier):
    T = tier != "quick"
    base = dict(free=[("s", 2)], mics=[("m", 1)], ir=1, out="pdf")
    n = 7 if not T else 12
    return [
        dict(base, tot=[2, n], exp=[1, n], chunk=3, buf=[2, 4], bs=[0, 2], kind="freq"),
        dict(base, tot=n, exp=[2, 5], chunk=[2, 4], buf=4, bs=0, kind="interval"),
        dict(base, tot=n, exp=2, chunk=3, buf=4, bs=0, kind="list"),
        dict(base, tot=8, exp=[2, 9], chunk=[2, 4], buf=4, bs=[1, 2], kind="state"),
        dict(base, tot=40, exp=[9, 14], chunk=[8, 9], buf=9, bs=[4, 5], kind="freq"),
        dict(base, tot=120, exp=[40, 41], chunk=32, buf=16, bs=0, kind="freq"),
        dict(base, tot=40, exp=[9, 11], chunk=9, buf=9, bs=5, kind="state"),
        dict(base, tot=40, exp=10, chunk=9, buf=9, bs=5, kind="instant"),
        dict(base, tot=8, exp=[2, 5], chunk=[2, 4], buf=4, bs=[1, 2], kind="instant"),
        dict(base, tot=[3, 5], exp=[1, 3], chunk=3, buf=4, bs=0, kind="multi"),
    ]


def run(S, case):
    spec = K.resolve(S, case)
    tot, kind = spec["tot"], case["kind"]
    core = S.mod("aspsim.diagnostics.core")
    dia = S.mod("aspsim.diagnostics.diagnostics")
    base = S.scratch()
    st, x, h = K.build(S, spec, base=base)
    sim = st.create_simulator()
    X = x["s"]
    name = "rec_1"             # names may themselves end in a number
    keep = S.bool("keep_only_last")
    exp = spec["exp"]
    points = [k for k in range(exp, tot + 1, exp)]
    iv = [(0, tot)]
    kw = {}
    if kind == "interval":
        a, b = S.cint("a", 0, tot - 1), S.cint("b", 1, tot)
        S.assume(a < b)
        iv = [(a, b)]
        kw["save_at"] = core.IntervalCounter([(a, b)])
    if kind == "list":
        k0, k1 = S.cint("k0", 1, tot), S.cint("k1", 1, tot)
        S.assume(k0 < k1)
        points = [k0, k1]
        kw["export_at"] = [k0, k1]
    if kind == "multi":
        return multi(S, sim, dia, X, tot, exp, points)
    proc = None
    if spec["bs"]:
        proc = K.processor(S, sim, spec["bs"])
        sim.add_processor(proc)
    if kind in ("freq", "interval", "list"):
        sim.diag.add_diagnostic(name, dia.RecordSignal("s", sim.sim_info, num_channels=2, export_func="npz", keep_only_last_export=keep, **kw))
        sim.diag.add_diagnostic("m", dia.RecordSignal("m", sim.sim_info, export_func="npz"))
    elif kind == "state":
        f = spec["bs"] * S.cint("f", 1, 3)      # documented: a multiple of the block size
        sim.diag.add_diagnostic(name, dia.RecordState("state", 1, sim.sim_info, save_frequency=f, export_func="npz", keep_only_last_export=keep, preprocess=[PRE]))
    else:
        f = spec["bs"] * S.cint("f", 1, 3)      # documented: a multiple of the block size
        sim.diag.add_diagnostic(name, dia.RecordFilter("state", sim.sim_info, save_at=f, export_func="npz", keep_only_last_export=keep, preprocess=[PRE]))
    sim.run_simulation()
    files = S.exports(sim.folder_path)
    mine = {k: v for k, v in files.items() if k.startswith(name + "_")}
    bs = spec["bs"]

    def calls_before(g):
        return g // bs           # processor blocks finished when g samples have passed

    if kind == "instant":
        points = [k for k in range(f, tot + 1, f)]
    first_due = iv[0][0]
    if kind == "interval":
        # an export with nothing recorded yet may be skipped or empty
        opt = [p for p in points if p <= first_due]
        need = [p for p in points if p > first_due]
    else:
        opt, need = [], list(points)
    if keep:
        want = set("%s_%d.npz" % (name, p) for p in need[-1:]) if need else set()
        got = set(mine)
        if need:
            S.check("only the last export is kept", got == want, "%s %s" % (sorted(got), sorted(want)))
        else:
            S.check("no unexpected file", len(got) <= 1)
    else:
        got = set(mine)
        must = set("%s_%d.npz" % (name, p) for p in need)
        may = must | set("%s_%d.npz" % (name, p) for p in opt)
        S.check("one file per export point", must <= got, "%s %s" % (sorted(got), sorted(must)))
        S.check("no other file", got <= may, "%s %s" % (sorted(got), sorted(may)))
    for fn, d in sorted(mine.items()):
        k = int(fn[len(name) + 1:-4])
        S.check("keyed by the diagnostic's name", list(d.keys()) == [name])
        v = d[name]
        if kind in ("freq", "interval", "list"):
            idx = [t for t in range(min(k, tot)) if any(a <= t < b for a, b in iv)]
            S.check("shape", tuple(v.shape) == (2, len(idx)), "%s %s" % (v.shape, len(idx)))
            if idx:
                S.eq("file k holds the recorded samples before k", v, X[:, idx], fn)
        elif kind == "state":
            times = [g for g in range(f, tot + 1, f)]
            vals = [float(calls_before(g)) for g in times if g - 1 < k]
            S.check("one value per due save", tuple(v.shape) == (1, len(vals)), "%s %s" % (v.shape, vals))
            blocks(S, bs, [(v[0, i] - 3) / 4 for i in range(len(vals))], vals, fn)
        else:
            blocks(S, bs, [(v[0] - 3) / 4], [float(calls_before(k))], fn)
    if "m" in sim.diag:
        mf = [k for k in files if k.startswith("m_")]
        S.check("other diagnostics keep their files", set(mf) == set("m_%d.npz" % p for p in range(exp, tot + 1, exp)), str(mf))


def multi(S, sim, dia, X, tot, exp, points):
    """two diagnostics whose file names can be confused, and one with several export functions, each with its own preprocessing"""
    n1, n2 = S.choose("names", [("rec", "rec_1"), ("rec_1", "rec"), ("rec_", "rec"), ("rec1", "rec")])
    keep1, keep2 = S.bool("keep1"), S.bool("keep2")
    texts = {}

    class J:
        @staticmethod
        def dump(obj, f, **k):
            texts[f.name.rsplit("/")[-1]] = obj
    S.patch("aspsim.diagnostics.plot", "json", J)
    double, plus, first = (lambda v: v * 2), (lambda v: v + 1), (lambda v: v[:1])
    funcs, pre = ["text", "npz"], [[double, plus, double], first]
    if S.bool("npz_first"):
        funcs, pre = funcs[::-1], pre[::-1]
    sim.diag.add_diagnostic(n1, dia.RecordSignal("s", sim.sim_info, num_channels=2, export_func=funcs, export_kwargs=[{}, {}], preprocess=pre, keep_only_last_export=keep1))
    sim.diag.add_diagnostic(n2, dia.RecordSignal("s", sim.sim_info, num_channels=2, export_func="npz", preprocess=plus, export_at=exp, keep_only_last_export=keep2))
    sim.run_simulation()
    files = S.exports(sim.folder_path)
    want = {}
    for n, keep in ((n1, keep1), (n2, keep2)):
        for k in points[-1:] if keep else points:
            want["%s_%d.npz" % (n, k)] = (n, X[:1, :k] if n == n1 else X[:, :k] + 1)
    S.check("exactly the files of both diagnostics", set(files) == set(want), "%s %s" % (sorted(files), sorted(want)))
    for fn, (n, v) in want.items():
        S.check("keyed by the diagnostic's name", list(files[fn].keys()) == [n])
        S.eq("file holds the values recorded, with the preprocessing of its own export function", files[fn][n], v, fn)
    S.check("text files at every export point", set(texts) == set("%s_%d.json" % (n1, k) for k in points), str(sorted(texts)))
    for k in points:
        acc = 0.0
        for c in range(2):
            for t in range(k):
                acc = acc + (X[c, t] * 2 + 1) * 2
        S.check("text files hold the mean of what was recorded", S.close(texts["%s_%d.json" % (n1, k)][n1] * (2 * k), acc))


def blocks(S, bs, got, want, fn):
    """the recorded state counts the blocks processed"""
    name = "state after the blocks among the first k samples" + (" (one-sample blocks)" if bs == 1 else "")
    for g, w in zip(got, want):
        S.check(name, S.and_(g == w), "%s got %s want %s" % (fn, g, w))
        if bs == 1:
            S.check("at most one block ahead", S.and_(g >= w, g <= w + 1), fn)
