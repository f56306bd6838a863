"""C01: microphone signals are the causal convolution of source signals with paths, summed."""
from . import common as K

ID = "C01"
BOUNDS = ("up to 3 source arrays and 2 microphone arrays of up to 2 elements, impulse responses of 1..5 taps, tot_samples <= 8 (quick) / 12, "
          "every chunk size, buffer size and processor block size in the listed ranges; all sample and tap values symbolic in [-1, 1]; two larger fixed sizes (up to 4x4 elements, 21 taps, 100 samples); a run of 700 samples with signals which are zero except at listed (symbolic) samples and 300 taps; array names which give the same strings for different pairs")
STUBS = "sources are user-supplied objects that play symbolic samples; the processor plays symbolic blocks; numba off (aspcore filters run as Python)"


def cases(tier):
    out = []
    A = out.append
    T = tier != "quick"
    A(dict(free=[("s", 1)], mics=[("m", 1)], ir=[1, 5], tot=8 if not T else 12, chunk=[1, 5], buf=[2, 6], pre="sym"))
    A(dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=4, tot=6, chunk=[2, 3], buf=4, bs=[0, 2], pre="sym", max_room_ir_length=[1, 3, 9], samplerate=[10, 3000], extra_delay=[0, 3]))
    A(dict(free=[("s", 2)], mics=[("m", 2)], ir=2, tot=4, chunk=[2, 3], buf=[2, 5], pre="sym", contrib="sym"))
    A(dict(free=[("s", 1), ("q", 2)], mics=[("m", 2), ("e", 1)], ir={"s~m": 1, "q~m": 3, "s~e": 4, "q~e": 2}, tot=5, chunk=[2, 4], buf=[3, 5], pre="sym"))
    A(dict(free=[("s", 1)], ctrl=[("c", 2)], mics=[("m", 1), ("e", 2)], ir={"s~m": 2, "c~m": 3, "s~e": 3, "c~e": 1}, tot=6, chunk=[2, 5], buf=[4, 5], bs=[1, 3], pre="sym"))
    A(dict(free=[], ctrl=[("c", 1), ("d", 1)], mics=[("m", 1)], ir=[1, 3], tot=7, chunk=[3, 5], buf=[5, 6], bs=[1, 3]))
    A(dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=2, tot=6, chunk=3, buf=4, bs=[0, 2], order=["mic", "ctrl", "free"], contrib="sym", pre="sym"))
    A(dict(free=[("s", 2)], ctrl=[("c", 1)], mics=[("m", 2)], ir=3, tot=5, chunk=[2, 4], buf=4, bs=2, pre="sym", contrib="sym"))
    # larger sizes, one path each
    A(dict(free=[("s", 3), ("q", 1)], ctrl=[("c", 4)], mics=[("m", 3), ("e", 4)], ir=7, tot=24, chunk=7, buf=9, bs=3, pre="sym", contrib="sym"))
    A(dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=21, tot=100, chunk=32, buf=40, bs=8, pre=True))
    # long responses, chunks and blocks; the signals are zero except at some samples
    A(dict(sparse=[0, 1, 63, 64, 255, 256, 300, 511, 512, 640], free=[("s", 2)], ctrl=[("c", 1)], mics=[("m", 2)], ir=300, tot=700, chunk=256, buf=200, bs=64, pre=False))
    # names which give the same string for different pairs
    A(dict(names=True, free=[(0, 1), (1, 1)], mics=[(0, 1), (1, 1)], ir=2, tot=3, chunk=2, buf=2, pre="sym"))
    if T:
        A(dict(free=[("s", 2), ("q", 1)], ctrl=[("c", 2)], mics=[("m", 2), ("e", 3)], ir=[1, 4], tot=7, chunk=[3, 6], buf=[5, 7], bs=[1, 3], pre="sym", contrib="sym"))
        A(dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=[1, 8], tot=16, chunk=[4, 8], buf=[7, 9], bs=[1, 4], pre="sym"))
    return out


def run(S, case):
    if case.get("names"):
        ss, ms = K.names(S)
        case = dict(case, free=[(ss[i], k) for i, k in case["free"]], mics=[(ms[i], k) for i, k in case["mics"]])
    spec = K.resolve(S, case)
    tot = spec["tot"]
    x = y = None
    if "sparse" in case:
        x = {s: K.sparse(S, "x_" + s, (num, K.num_source_samples(spec)), case["sparse"]) for s, num in case["free"]}
        y = {s: K.sparse(S, "y_" + s, (num, tot + 2 * spec["bs"]), case["sparse"]) for s, num in case["ctrl"]}
    r = K.run_sim(S, spec, x=x, y=y)
    sigs = {}
    for s, num in r["free"] + r["ctrl"]:
        sigs[s] = K.source_signal(S, spec, r["x"].get(s), s, num, r["y"].get(s))
        want = [[sigs[s].get(t, [0.0] * num)[c] for t in range(tot)] for c in range(num)]
        S.eq("source signal is what the source produced", r["out"][s], S.array(want))
    for m, nm in spec["mics"]:
        want = [[0.0] * tot for _ in range(nm)]
        for t in range(tot):
            for s, ns in r["free"] + r["ctrl"]:
                c = K.convolved(S, spec, sigs[s], r["h"][s, m], ns, nm, t)
                for i in range(nm):
                    want[i][t] = want[i][t] + c[i]
        S.eq("mic signal is the sum of convolutions", r["out"][m], S.array(want), m)
