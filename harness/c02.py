"""C02: chunk size, buffer size and the position of buffer resets never change any signal."""
from . import common as K

ID = "C02"
BOUNDS = "tot_samples <= 8 (quick) / 12, every chunk size and buffer size in the listed ranges, block sizes 1..3, IR <= 4 taps, all samples symbolic; two larger sizes (100-150 samples, IR up to 30 taps); a run of 320 samples with signals which are zero except at listed (symbolic) samples and 140 taps"
STUBS = "user-supplied symbolic sources; processors: scripted playback, feedback from the microphones, and a processor-owned signal"


def cases(tier):
    T = tier != "quick"
    out = []
    A = out.append
    A(dict(free=[("s", 1)], mics=[("m", 1)], ir=4, tot=8 if not T else 14, chunk=[1, 6], buf=[2, 9], ref=(20, 9)))
    A(dict(free=[("s", 2)], ctrl=[("c", 1)], mics=[("m", 2)], ir=2, tot=6, chunk=[1, 5], buf=[2, 6], bs=[1, 3], contrib="sym", ref=(20, 12)))
    A(dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=2, tot=7, chunk=[2, 5], buf=[3, 5], bs=[1, 2], mode="feedback", ref=(20, 12)))
    A(dict(free=[("s", 1)], ctrl=[("c", 2)], mics=[("m", 1)], ir=3, tot=6, chunk=[2, 4], buf=6, bs=[1, 3], pre=True, ref=(20, 6)))
    A(dict(free=[("s", 1)], mics=[("m", 2)], ir=3, tot=6, chunk=[1, 4], buf=[4, 5], pre=True, ref=(20, None)))
    # larger sizes, few paths
    A(dict(free=[("s", 3), ("q", 1)], ctrl=[("c", 2)], mics=[("m", 3), ("e", 1)], ir=9, tot=50, chunk=[12, 13], buf=11, bs=5, contrib="sym", ref=(64, 40)))
    A(dict(free=[("s", 1)], mics=[("m", 1)], ir=30, tot=150, chunk=[40, 41], buf=[7, 33], pre=True, ref=(200, None)) if T else
      dict(free=[("s", 1)], mics=[("m", 1)], ir=30, tot=100, chunk=40, buf=[32, 33], pre=True, ref=(128, None)))
    A(dict(sparse=[0, 1, 95, 96, 128, 200, 256, 299], free=[("s", 2)], ctrl=[("c", 1)], mics=[("m", 1)], ir=140, tot=320, chunk=[128, 129], buf=96, bs=32, ref=(500, 300)))
    if T:
        A(dict(free=[("s", 1), ("q", 1)], ctrl=[("c", 2)], mics=[("m", 1), ("e", 2)], ir=3, tot=8, chunk=[3, 7], buf=[5, 8], bs=[1, 3], contrib="sym", ref=(30, 14)))
    return out


def make(S, spec, gains, y, x, h):
    st, x, h = K.build(S, spec, x=x, h=h)
    sim = st.create_simulator()
    names = list(spec["mics"]) + list(spec["free"]) + list(spec.get("ctrl", ()))
    proc = None
    bs = spec.get("bs")
    if bs:
        AP = S.mod("aspsim.processor").AudioProcessor
        mode = spec.get("mode", "script")

        class P(AP):
            def __init__(self, *a):
                super().__init__(*a)
                self.name = "P"
                self.k = 0
                self.sig.create_signal("aux", (2,))

            def process(self, n):
                i = self.sig.idx
                if mode == "feedback":
                    for c, nc in spec["ctrl"]:
                        for ch in range(nc):
                            self.sig[c][ch, i:i + n] = gains[0] * self.sig["m"][0, i - n:i] + y[c][ch, self.k * n:(self.k + 1) * n]
                else:
                    for c, nc in spec["ctrl"]:
                        self.sig[c][:, i:i + n] = y[c][:, self.k * n:(self.k + 1) * n]
                # a signal owned by the processor: previous block plus microphone
                self.sig["aux"][0, i:i + n] = self.sig["aux"][0, i - n:i] + self.sig["m"][0, i - n:i]
                self.sig["aux"][1, i:i + n] = self.sig["m"][0, i - n:i]
                self.k += 1
        proc = P(sim.sim_info, sim.arrays, bs)
        sim.add_processor(proc)
        names = names + [("aux", 2)]
    if spec.get("contrib"):
        names = names + [(s + "~" + m, nm) for s, _ in list(spec["free"]) + list(spec.get("ctrl", ())) for m, nm in spec["mics"]]
    K.record(S, sim, names)
    sim.run_simulation()
    return {n: sim.diag["rec_" + n].get_output() for n, _ in names}, x, h


def run(S, case):
    spec = K.resolve(S, case)
    ref = dict(spec)
    ref["chunk"] = case["ref"][0]
    ref["buf"] = case["ref"][1] or spec["buf"]
    bs = spec.get("bs") or 1
    if "sparse" not in case:
        y = {c: S.reals("y_" + c, (nc, spec["tot"] + 2 * bs)) for c, nc in spec.get("ctrl", ())}
    gains = [S.real("g", -1, 1)]
    n = max(K.num_source_samples(spec), K.num_source_samples(ref))
    if "sparse" not in case:
        x = {s: S.reals("x_" + s, (ns, n)) for s, ns in spec["free"]}
    if "sparse" in case:
        x = {s: K.sparse(S, "x_" + s, (ns, n), case["sparse"]) for s, ns in spec["free"]}
        y = {c: K.sparse(S, "y_" + c, (nc, spec["tot"] + 2 * bs), case["sparse"]) for c, nc in spec["ctrl"]}
    a, x, h = make(S, spec, gains, y, x, {})
    b, _, _ = make(S, ref, gains, y, x, h)
    S.check("same signals exist", sorted(a) == sorted(b))
    for k in sorted(a):
        S.eq("signal independent of chunk and buffer size", a[k], b[k], k)
