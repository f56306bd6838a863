"""C03: recorded signals: every requested sample index exactly once, at its place; nothing else."""
from . import common as K

ID = "C03"
BOUNDS = ("whole runs: tot_samples <= 8 (quick) / 11, all pairs of non-overlapping record intervals, all chunk/buffer sizes in range, with/without processor, "
          "channel selection; plus listed interval sets on runs of 45 and 120 samples; intervals given as tuple, list, array or iterator; negative and list channel indices; single logger steps: any integer time, interval and buffer position (unbounded)")
STUBS = "user-supplied symbolic sources; in the single-step cases the diagnostic is a stand-in that notes which indices it was handed"


def cases(tier):
    T = tier != "quick"
    n = 6 if not T else 10
    base = dict(free=[("s", 3)], mics=[("m", 1)], ir=1, kind="run")
    return [
        dict(base, tot=n, chunk=[2, 3] if not T else [2, 5], buf=[3, 4], bs=0, iv=2),
        dict(base, tot=5 if not T else 7, chunk=[2, 4], buf=4, bs=[1, 2], iv=2),
        dict(base, tot=[1, 6], chunk=[1, 4], buf=[2, 6], bs=[0, 2], iv=0),
        dict(base, tot=7 if not T else 9, chunk=3, buf=4, bs=0, iv=3),
        dict(base, tot=5, chunk=2, buf=3, bs=0, iv=2, forms=True),
        dict(base, tot=45, chunk=[8, 9], buf=10, bs=[0, 5], iv=0, ivs=[[(0, 1), (7, 8), (9, 20), (44, 45)], [(3, 43)], [(8, 16), (16 + 1, 24), (30, 31), (32, 33), (34, 35), (40, 44)]]),
        dict(base, tot=120, chunk=32, buf=16, bs=[0, 16], iv=0, ivs=[[(31, 33), (63, 96), (97, 110)], [(0, 120)]]),
        dict(kind="step"),
        dict(kind="steps", n=5 if not T else 8),
    ]


def run(S, case):
    if case["kind"] != "run":
        return run_step(S, case)
    spec = K.resolve(S, case)
    tot = spec["tot"]
    core = S.mod("aspsim.diagnostics.core")
    dia = S.mod("aspsim.diagnostics.diagnostics")
    st, x, h = K.build(S, spec)
    sim = st.create_simulator()
    iv = []
    lo = 0
    for k in range(case["iv"]):
        a = S.cint("a%d" % k, 0, tot - 1)
        b = S.cint("b%d" % k, 1, tot)
        S.assume(a >= lo and b > a)        # intervals may touch
        lo = b
        iv.append((a, b))
    if "ivs" in case:
        iv = S.choose("ivs", case["ivs"])
    kw = dict(export_func="npz")
    if iv:
        form = S.choose("form", ["iterator", "array", "lists"] if case.get("forms") else ["tuple", "lists"])
        n = sum(b - a for a, b in iv)
        forms = dict(tuple=lambda: (tuple(iv),), lists=lambda: ([list(i) for i in iv],), array=lambda: (S.np.array([[int(v) for v in i] for i in iv]),),
                     iterator=lambda: (iter(iv), n))
        mk = lambda: dict(kw, save_at=core.IntervalCounter(*forms[form]()))
    else:
        iv = [(0, tot)]
        mk = lambda: dict(kw)
    sim.diag.add_diagnostic("all", dia.RecordSignal("s", sim.sim_info, num_channels=3, **mk()))
    sim.diag.add_diagnostic("sel", dia.RecordSignal("s", sim.sim_info, num_channels=2, channel_idx=(2, 0), **mk()))
    sim.diag.add_diagnostic("one", dia.RecordSignal("s", sim.sim_info, channel_idx=1, **mk()))
    ch = S.choose("channels", [(-1,), (1, 1), (2, 1, 0), [0, 2], -3]) if case.get("forms") else None
    if ch is not None:
        sim.diag.add_diagnostic("ch", dia.RecordSignal("s", sim.sim_info, num_channels=1 if isinstance(ch, int) else len(ch), channel_idx=ch, **mk()))
    sim.diag.add_diagnostic("mic", dia.RecordSignal("m", sim.sim_info, num_channels=1, **mk()))
    if spec["bs"]:
        sim.add_processor(K.processor(S, sim, spec["bs"]))
    sim.run_simulation()
    X = x["s"]
    mic = [[h["s", "m"][0, 0, 0] * X[0, t] + h["s", "m"][1, 0, 0] * X[1, t] + h["s", "m"][2, 0, 0] * X[2, t] for t in range(tot)]]
    want = dict(all=X[:, :tot], sel=X[[2, 0], :tot], one=X[1:2, :tot], mic=S.array(mic))
    if ch is not None:
        want["ch"] = X[[ch] if isinstance(ch, int) else list(ch), :tot]
    inside = [any(a <= t < b for a, b in iv) for t in range(tot)]
    for name, w in want.items():
        got = sim.diag[name].get_output()
        S.check("one column per sample of the simulation", got.shape == w.shape, "%s %s" % (got.shape, w.shape))
        for t in range(tot):
            if inside[t]:
                S.eq("requested index holds that sample", got[:, t], w[:, t], "%s t=%d iv=%s" % (name, t, iv))
            else:
                S.check("index outside the request stays empty", all(S.is_nan(v) for v in got[:, t].tolist()), "%s t=%d" % (name, t))
        S.check("number of values", sim.diag[name].save_at.num_values == sum(b - a for a, b in iv))


class Probe:
    """stand-in diagnostic"""
    def __init__(self, save_at):
        self.save_at = save_at
        self.got = []

    def next_save(self):
        return self.save_at.upcoming()

    def progress_save(self, u):
        self.save_at.progress(u)

    def save(self, proc, sig, chunk, glob):
        self.got.append((chunk, glob))


def run_step(S, case):
    """ticks of the logger at arbitrary times; integers unbounded

    At tick g (steps of the simulation) the samples with global index < g are available,
    sample g sits at buffer position idx - 1."""
    core = S.mod("aspsim.diagnostics.core")
    info = S.config()
    log = core.Logger(info)
    a = S.int("a", 0)
    b = S.int("b", 1)
    c = S.int("c", 1)
    d = S.int("d", 2)
    S.assume(S.and_(b > a, c > b, d > c))
    ic = core.IntervalCounter([[a, b], [c, d]])
    p = Probe(ic)
    log.add_diagnostic("p", p)
    g = S.int("g", 0)
    n = 1 if case["kind"] == "step" else case["n"]
    # before the first tick everything below g has been handled: either nothing was due yet ...
    S.assume(g <= a)
    idx = S.int("idx", 1)
    if case["kind"] == "step":
        # ... or recording of [a, b) is under way and done up to `u`
        u = S.int("u", 0)
        S.assume(S.and_(u >= a, u <= b))
        if bool(u > a):
            log.save_data(None, None, idx, u, True)
            S.check("resume point", S.and_(ic.upcoming()[0] == S.ite(u == b, c, u)))
            p.got.clear()
            # next tick: anywhere up to the end of the interval (no tick may be skipped past an end)
            g2 = S.int("g2", 0)
            S.assume(S.and_(g2 > u, g2 <= S.ite(u == b, d, b)))
            start, end = ic.upcoming()
            last = S.bool("last")
            log.save_data(None, None, idx, g2, last)
            done(S, p, idx, g2, start, end, last)
        return
    # n consecutive ticks from a symbolic starting time, with symbolic chunk boundaries
    pos = idx
    lasts = []
    for k in range(n):
        last = S.bool("last%d" % k)
        start, end = ic.upcoming()
        before = len(p.got)
        log.save_data(None, None, pos, g, last)
        done(S, p, pos, g, start, end, last, before)
        g = g + 1
        pos = pos + 1
    # what was handed over is exactly the due part of the two intervals, without gaps or repeats
    t = S.int("t", 0)
    cnt = 0
    for chunk, (s, e) in p.got:
        cnt = cnt + S.ite(S.and_(t >= s, t < e), 1, 0)
    due = S.or_(S.and_(t >= a, t < b), S.and_(t >= c, t < d))
    upto = ic.upcoming()[0]
    S.check("every due index exactly once", S.implies(S.and_(due, t < upto), cnt == 1))
    S.check("nothing else", S.implies(S.not_(S.and_(due, t < upto)), cnt == 0))


def done(S, p, idx, g, start, end, last, before=0):
    new = p.got[before:]
    for chunk, (s, e) in new:
        S.check("buffer range has the length of the index range", chunk[1] - chunk[0] == e - s)
        S.check("sample i sits at idx - 1 - (g - i)", chunk[0] == idx - 1 - (g - s))
        S.check("starts where recording stopped", s == start)
        S.check("only finished samples", e <= g)
        S.check("stays in the interval", e <= end)
    handled = len(new) == 1
    S.check("at most one piece per step", len(new) <= 1)
    S.check("a completed interval is stored", S.implies(g >= end, handled))
    S.check("before a buffer reset everything available is stored", S.implies(S.and_(last, g > start), handled))
