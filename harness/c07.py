"""C07: the state at time zero in both start modes."""
from . import common as K

ID = "C07"
BOUNDS = "buffer sizes 2..7 (quick) / 2..12, IR 1..4 taps, 2 sources and 2 mics of up to 2 elements, both start modes, with and without processor; plus buffers 24, 25 with IR 11, 12; buffers 300, 301 with 160 taps and signals which are zero except at listed (symbolic) samples"
STUBS = "user-supplied symbolic sources"


def cases(tier):
    T = tier != "quick"
    return [
        dict(free=[("s", 1)], mics=[("m", 1)], ir=[1, 4], tot=4, chunk=[2, 4], buf=[2, 7 if not T else 12], pre="sym"),
        dict(free=[("s", 3)], ctrl=[("c", 2)], mics=[("m", 4)], ir=[11, 12], tot=12, chunk=[9, 10], buf=[24, 25], bs=[0, 4], pre="sym"),
        dict(sparse=[0, 1, 100, 255, 256, 298, 299, 300, 305], free=[("s", 2)], ctrl=[("c", 1)], mics=[("m", 1)], ir=160, tot=12, chunk=40, buf=[300, 301], bs=8, pre="sym"),
        dict(free=[("s", 2), ("q", 1)], ctrl=[("c", 1)], mics=[("m", 2), ("e", 1)], ir=[1, 3], tot=3, chunk=3, buf=[3, 6], bs=[1, 2], pre="sym", contrib="sym"),
    ]


def run(S, case):
    spec = K.resolve(S, case)
    buf, tot, pre = spec["buf"], spec["tot"], spec["pre"]
    x = {s: K.sparse(S, "x_" + s, (num, K.num_source_samples(spec)), case["sparse"]) for s, num in case["free"]} if "sparse" in case else None
    st, x, h = K.build(S, spec, x=x)
    sim = st.create_simulator()
    free, ctrl = list(spec["free"]), list(spec.get("ctrl", ()))
    K.record(S, sim, list(spec["mics"]) + free)
    snap = {}
    if spec.get("bs"):
        AP = S.mod("aspsim.processor").AudioProcessor

        class P(AP):
            def prepare(self):
                snap["idx"] = self.sig.idx
                for k in self.sig.keys():
                    snap[k] = self.sig[k].copy()

            def process(self, n):
                pass
        p = P(sim.sim_info, sim.arrays, spec["bs"])
        p.name = "P"
        sim.add_processor(p)
    sim.run_simulation()
    off = buf - 1 if pre else 0           # samples already produced before time 0
    for s, ns in free:
        src = sim.arrays[s].source
        S.eq("first recorded samples", sim.diag["rec_" + s].get_output(), S.array(x[s])[:, off:off + tot], s)
        S.check("the setup's own source was not consumed", st.arrays[s].source.pos == 0)
        S.check("source advanced exactly with the simulation", sum(src.calls) == src.pos and src.pos >= off + tot)
        S.check("pre-roll length", src.calls[0] == (buf if pre else 1))
        S.check("one sample per step afterwards", all(c == 1 for c in src.calls[1:]))
    for m, nm in spec["mics"]:
        for t in range(tot):
            want = [0.0] * nm
            for s, ns in free:
                sg = K.source_signal(S, spec, x[s], s, ns)
                want = [a + b for a, b in zip(want, K.convolved(S, spec, sg, h[s, m], ns, nm, t))]
            S.eq("microphones hold the reverberant tail of exactly the pre-roll", sim.diag["rec_" + m].get_output()[:, t], S.array(want), "t=%d" % t)
    if snap:
        S.check("first index", snap["idx"] == buf)
        for s, ns in free:
            for i in range(buf):
                g = i - (buf - 1)           # global time of local index i
                want = [x[s][c, g + off] if g + off >= 0 else 0.0 for c in range(ns)]
                S.eq("source pre-buffer", snap[s][:, i], S.array(want))
        for c, nc in ctrl:
            S.eq("controllable sources are silent before the first block", snap[c], S.np.zeros(snap[c].shape))
        for m, nm in spec["mics"]:
            for i in range(buf):
                g = i - (buf - 1)
                want = [0.0] * nm
                for s, ns in free:
                    sg = K.source_signal(S, spec, x[s], s, ns)
                    cc = K.convolved(S, spec, sg, h[s, m], ns, nm, g)
                    want = [a + b for a, b in zip(want, cc)]
                    if spec.get("contrib"):
                        S.eq("contribution pre-buffer", snap[s + "~" + m][:, i], S.array(cc))
                S.eq("microphone pre-buffer", snap[m][:, i], S.array(want), "i=%d" % i)
            S.eq("nothing is heard after the current index", snap[m][:, buf:], S.np.zeros(snap[m][:, buf:].shape))
