"""Simulation scaffolding shared by the harnesses (works on symbols and on numbers)."""
import numpy as _n


class ListSource:
    """A user-supplied source object: plays the columns of a matrix, one after the other."""
    def __init__(self, S, x):
        self.x = x
        self.num_channels = x.shape[0]
        self.metadata = {}
        self.pos = 0
        self.calls = []

    def get_samples(self, num_samples):
        n = num_samples.__index__()
        self.calls.append(n)
        r = self.x[:, self.pos:self.pos + n].copy()
        assert r.shape[1] == n, "source ran out of samples"
        self.pos += n
        return r


def pos(num, k=0):
    return _n.array([[0.3 * i + k, 0.1 * k, 0.05 * i] for i in range(num)])


def build(S, spec, x=None, h=None, session=None, base=None):
    """SimulatorSetup with sources, mics, user paths. Returns (setup, x, h)."""
    cfg = dict(tot_samples=spec["tot"], sim_chunk_size=spec["chunk"], sim_buffer=spec["buf"],
               start_sources_before_0=spec.get("pre", False), save_source_contributions=spec.get("contrib", False),
               export_frequency=spec.get("exp", spec["tot"]), plot_output=spec.get("out", "none"),
               array_update_freq=spec.get("auf", 1))
    for k in ("max_room_ir_length", "samplerate", "extra_delay", "reverb", "output_smoothing"):
        if k in spec:
            cfg[k] = spec[k]
    st = S.setup(base=base, session=session, **cfg)
    x = {} if x is None else dict(x)
    h = {} if h is None else dict(h)
    n = num_source_samples(spec)
    for i, (name, num) in enumerate(spec.get("free", ())):
        if name not in x:
            x[name] = S.reals("x_" + name, (num, n))
    for name in spec.get("order", ["free", "ctrl", "mic"]):
        if name == "free":
            for i, (a, num) in enumerate(spec.get("free", ())):
                st.add_free_source(a, pos(num, i), ListSource(S, S.array(x[a])))
        elif name == "ctrl":
            for i, (a, num) in enumerate(spec.get("ctrl", ())):
                st.add_controllable_source(a, pos(num, 3 + i))
        else:
            for i, (a, num) in enumerate(spec["mics"]):
                st.add_mics(a, pos(num, 6 + i))
    for a, ns in list(spec.get("free", ())) + list(spec.get("ctrl", ())):
        for b, nm in spec["mics"]:
            L = spec["ir"] if isinstance(spec["ir"], int) else spec["ir"].get(a + "~" + b, 2)
            if L is None:
                continue
            if (a, b) not in h:
                h[a, b] = S.reals("h_%d%s_%s" % (len(a), a, b), (ns, nm, L))
            st.set_path(a, b, S.array(h[a, b]))
    return st, x, h


SEPS = ["", "_", "~", "->"]


def names(S, seps=SEPS):
    """two sources and two microphones whose names give the same string for different pairs when joined"""
    sep = S.choose("sep", seps)
    return ("a", "a" + sep + "b"), ("b" + sep + "c", "c")


def num_source_samples(spec):
    extra = max(1, spec.get("bs") or max(1, spec["buf"] // 4))
    return spec["tot"] + extra + spec["buf"] + 2


def processor(S, sim, bs, script=None, reads=(), own=None):
    """An AudioProcessor that records what it sees and plays scripted blocks.

    script: {ctrl name: matrix (num, T)}; block j plays columns [j*bs, (j+1)*bs)"""
    AP = S.mod("aspsim.processor").AudioProcessor
    script = script or {}
    own = own or {}         # name -> dimensions of further signals which the processor creates in its constructor

    class P(AP):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.name = "P"
            self.calls = []
            self.seen = {r: [] for r in reads}
            self.prepared = 0
            self.state = S.array([0.0])
            self.count = 0
            self.own = {k: [] for k in own}
            for k, dim in own.items():
                self.sig.create_signal(k, dim)

        def prepare(self):
            self.prepared += 1

        def process(self, num_samples):
            j = len(self.calls)
            i = self.sig.idx
            self.calls.append((num_samples, i))
            self.count = self.count + 1
            self.state = self.state + 1
            for k, dim in own.items():
                self.own[k].append(self.sig[k][..., i - num_samples:i].copy())
                self.sig[k][..., i:i + num_samples] += j + 1
            for r in reads:
                self.seen[r].append(self.sig[r][:, i - num_samples:i].copy())
            for c, y in script.items():
                self.sig[c][:, i:i + num_samples] += y[:, j * bs:j * bs + num_samples]
    return P(sim.sim_info, sim.arrays, bs)


def sparse(S, name, shape, at):
    """zeros, with solver variables at the given columns"""
    x = S.reals(name, (shape[0], len(at)))
    return S.array([[x[c, at.index(t)] if t in at else 0.0 for t in range(shape[1])] for c in range(shape[0])])


def record(S, sim, names, **kw):
    dia = S.mod("aspsim.diagnostics.diagnostics")
    for name, num in names:
        sim.diag.add_diagnostic("rec_" + name, dia.RecordSignal(name, sim.sim_info, num_channels=num, export_func="npz", **kw))


def source_signal(S, spec, x, name, num, script=None):
    """dict global time -> list of channel values, by the documented start modes"""
    tot = spec["tot"]
    bs = spec.get("bs")
    sig = {}
    if x is not None:
        t0 = -(spec["buf"] - 1) if spec.get("pre") else 0
        for t in range(t0, tot):
            sig[t] = [x[c, t - t0] for c in range(num)]
    elif script is not None:
        for t in range(bs, tot):
            sig[t] = [script[c, t - bs] for c in range(num)]
    if "sparse" in spec:
        first = min(sig, default=0)
        sig = {t: v for t, v in sig.items() if t - first in spec["sparse"]}
    return sig


def convolved(S, spec, sig, h, ns, nm, t):
    """mic contribution of one source array at global time t"""
    out = []
    for m in range(nm):
        acc = 0.0
        for c in range(ns):
            for k in range(h.shape[2]):
                if (t - k) in sig:
                    acc = acc + h[c, m, k] * sig[t - k][c]
        out.append(acc)
    return out


def resolve(S, spec):
    """Replace [lo, hi] ranges of sizes by symbolic sizes (explored value by value)."""
    sp = dict(spec)
    for k in ("tot", "chunk", "buf", "bs", "exp"):
        if isinstance(sp.get(k), list):
            sp[k] = S.cint(k, sp[k][0], sp[k][1])
    for k in ("max_room_ir_length", "samplerate", "extra_delay"):       # settings that must not matter
        if isinstance(sp.get(k), list):
            sp[k] = S.choose(k, sp[k])
    for k in ("pre", "contrib"):
        if sp.get(k) == "sym":
            sp[k] = S.bool(k)
    if not sp.get("bs"):
        sp["bs"] = None
    # documented/implied size requirements of the streaming buffer
    bs = sp["bs"]
    if bs:
        S.assume(sp["chunk"] >= min(bs, 2) and sp["buf"] >= max(2, 2 * bs - 1))
    else:
        S.assume(sp["buf"] >= 2)
    if isinstance(spec.get("ir"), list):
        sp["ir"] = S.cint("ir", spec["ir"][0], spec["ir"][1])
    return sp


def run_sim(S, spec, rec=True, y=None, x=None, h=None, reads=(), own=None, **kw):
    """build + simulate; returns dict with everything the harness may compare"""
    st, x, h = build(S, spec, x=x, h=h, **kw)
    sim = st.create_simulator()
    ctrl = list(spec.get("ctrl", ()))
    free = list(spec.get("free", ()))
    if rec:
        record(S, sim, list(spec["mics"]) + free + ctrl)
        if spec.get("contrib"):
            record(S, sim, [(s + "~" + m, nm) for s, _ in free + ctrl for m, nm in spec["mics"]])
    y = {} if y is None else dict(y)
    proc = None
    if spec.get("bs"):
        for c, num in ctrl:
            if c not in y:
                y[c] = S.reals("y_" + c, (num, spec["tot"] + 2 * spec["bs"] + spec.get("ypad", 0)))
        proc = processor(S, sim, spec["bs"], y, reads, own)
        sim.add_processor(proc)
    sim.run_simulation()
    out = {n[4:]: d.get_output() for n, d in sim.diag.items() if n.startswith("rec_")} if rec else {}
    return dict(sim=sim, st=st, x=x, h=h, y=y, proc=proc, out=out, free=free, ctrl=ctrl)
