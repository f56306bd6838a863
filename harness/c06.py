"""C06: saved per-source contributions add up to the microphone signal."""
from . import common as K

ID = "C06"
BOUNDS = "2-3 source arrays, 1-2 mic arrays, IR <= 3 taps, tot_samples <= 6, chunk and buffer sizes in ranges, static and moving arrays; plus one 30-sample run with IR lengths 1..12 and up to 3 elements; a run of 260 samples with signals which are zero except at listed (symbolic) samples and up to 150 taps; array names which give the same strings for different pairs"
STUBS = "user-supplied symbolic sources; image-source library replaced by a function of the two positions"


def cases(tier):
    T = tier != "quick"
    out = [
        dict(free=[("s", 2), ("q", 1)], mics=[("m", 2), ("e", 1)], ir={"s~m": 2, "q~m": 3, "s~e": 1, "q~e": 2}, tot=5, chunk=[2, 4], buf=[2, 5], pre="sym"),
        dict(free=[("s", 1)], ctrl=[("c", 2), ("d", 1)], mics=[("m", 2)], ir=2, tot=6 if not T else 9, chunk=[2, 4], buf=[4, 5], bs=[1, 2], pre="sym"),
        dict(free=[("q", 1)], ctrl=[("c", 1)], mics=[("m", 1), ("e", 1)], ir=2, tot=5, chunk=3, buf=3, bs=[1, 2], pre="sym", order=["mic", "ctrl", "free"]),
    ]
    out.append(dict(free=[("s", 3), ("q", 1)], ctrl=[("c", 2)], mics=[("m", 3), ("e", 2)], ir={"s~m": 5, "q~m": 9, "c~m": 12, "s~e": 1, "q~e": 4, "c~e": 7}, tot=30, chunk=[9, 10], buf=11, bs=[0, 4], pre="sym"))
    out.append(dict(sparse=[0, 1, 70, 127, 128, 200], free=[("s", 1), ("q", 1)], ctrl=[("c", 1)], mics=[("m", 2)], ir={"s~m": 150, "q~m": 40, "c~m": 90}, tot=260, chunk=128, buf=70, bs=32, pre=False))
    out.append(dict(names=True, free=[(0, 1), (1, 1)], mics=[(0, 1), (1, 1)], ir=2, tot=3, chunk=2, buf=2, pre="sym"))
    return [dict(c, contrib=True) for c in out]


def run(S, case):
    if case.get("names"):        # names which give the same string for different pairs ("~" is refused)
        ss, ms = K.names(S, ["", "_", "->"])
        case = dict(case, free=[(ss[i], k) for i, k in case["free"]], mics=[(ms[i], k) for i, k in case["mics"]])
    spec = K.resolve(S, case)
    x = y = None
    if "sparse" in case:
        x = {s: K.sparse(S, "x_" + s, (num, K.num_source_samples(spec)), case["sparse"]) for s, num in case["free"]}
        y = {s: K.sparse(S, "y_" + s, (num, spec["tot"] + 2 * spec["bs"]), case["sparse"]) for s, num in case["ctrl"]}
    r = K.run_sim(S, spec, x=x, y=y)
    srcs = r["free"] + r["ctrl"]
    tot = spec["tot"]
    for m, nm in spec["mics"]:
        acc = 0
        for s, ns in srcs:
            acc = acc + r["out"][s + "~" + m]
        S.eq("contributions add up", r["out"][m], acc, m)
        for s, ns in srcs:
            sig = K.source_signal(S, spec, r["x"].get(s), s, ns, r["y"].get(s))
            cols = [K.convolved(S, spec, sig, r["h"][s, m], ns, nm, t) for t in range(tot)]
            want = [[cols[t][i] for t in range(tot)] for i in range(nm)]
            S.eq("each contribution is that source's convolution", r["out"][s + "~" + m], S.array(want), s + "~" + m)
    # and in the raw buffers, at every time that is still held
    sig = r["sim"].sig
    hi = sig.idx
    for m, nm in spec["mics"]:
        acc = 0
        for s, ns in srcs:
            acc = acc + sig[s + "~" + m][:, :hi]
        S.eq("contributions add up in the live buffers", sig[m][:, :hi], acc, m)
