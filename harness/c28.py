"""C28: frequency responses of the paths"""
import math
from . import common as K

ID = "C28"
BOUNDS = "transform length 2..8 (quick) / ..16 even, response length 1..5 / ..9 (shorter, equal, longer), 1-2 x 1-2 arrays of 1-3 channels; path samples and samplerate symbolic; plus lengths 20 and 30 with 33 and 7 taps; array names which give the same strings for different pairs"
STUBS = "np.fft.fft/rfft by the definition of the discrete Fourier transform"


def cases(tier):
    T = tier != "quick"
    ns = [2, 4, 6, 8] + ([10, 12, 16] if T else [])
    return [dict(free=[("s", 2)] + ([("t", 1)] if n == 4 else []), ctrl=[("c", 1)], mics=[("m", 3), ("e", 1)], ir=l, tot=2, chunk=2, buf=2, bs=0, n=n) for n, l in [(n, [1, 5 + 4 * T]) for n in ns] + [(20, 33), (30, 7)]] + [dict(names=True, tot=2, chunk=2, buf=2, n=4, ir=3)]


def run(S, case):
    srcs, mics = [("s", 2), ("c", 1)], [("m", 3), ("e", 1)]
    if len(case.get("free", ())) > 1:
        srcs.append(("t", 1))
    if case.get("names"):
        ss, ms = K.names(S)
        srcs, mics = [(ss[0], 2), (ss[1], 1)], [(ms[0], 1), (ms[1], 2)]
        case = dict(case, free=srcs, mics=mics)
    spec = K.resolve(S, case)
    st, x, h = K.build(S, spec)
    if not case.get("names") and S.bool("unset"):                     # one pair without user path: type none
        st.set_path("c", "e", S.array([[[0.0]]]))
        st.arrays.path_type["c"]["e"] = "none"
        del h["c", "e"]
    sim = st.create_simulator()
    sr = S.real("samplerate", 1, 48000)
    n = case["n"]
    fp, freqs = sim.arrays.get_freq_paths(n, sr)
    sim.arrays.get_freq_paths(n + 2, sr)               # a later answer does not change this one
    nf = n // 2 + 1
    S.check("one bin per non-negative frequency", tuple(freqs.shape) == (nf,), str(freqs.shape))
    for k in range(nf):
        S.check("bin k is k times samplerate over length", S.close(freqs[k] * n, sr * k), "k=%d" % k)
    S.check("all sources", sorted(fp) == sorted(a for a, k in srcs), str(sorted(fp)))
    for a, na in srcs:
        S.check("all microphones", sorted(fp[a]) == sorted(b for b, k in mics), str(sorted(fp[a])))
        for b, nb in mics:
            P = fp[a][b]
            S.check("layout is (frequency, microphone, source)", tuple(P.shape) == (nf, nb, na), str(P.shape))
            H = h.get((a, b))
            for k in range(nf):
                for m in range(nb):
                    for s in range(na):
                        re, im = 0.0, 0.0
                        if H is not None:
                            for t in range(min(n, H.shape[2])):
                                w = 2 * math.pi * k * t / n
                                re = re + H[s, m, t] * math.cos(w)
                                im = im - H[s, m, t] * math.sin(w)
                        v = P[k, m, s]
                        S.check("DFT of the path (truncated or zero-padded)", S.and_(S.close(v.real, re), S.close(v.imag, im)), "%s %s k=%d m=%d s=%d" % (a, b, k, m, s))
    for a, b in h:
        S.eq("the paths themselves are unchanged", sim.arrays.paths[a][b], h[a, b])
