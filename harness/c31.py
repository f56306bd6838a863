"""C31: the differential cardioid microphone hears the front and cancels the rear."""
import math, cmath

ID = "C31"
BOUNDS = ("filter order 1-3 (quick) / 1-5, 1-2 microphone pairs, 6 combinations of distance, speed of sound and sample rate, with and without low frequency limit (between and at design frequencies); "
          "signals: arbitrary symbolic samples of 1 to 2 * order + 4 samples, and arbitrary symbolic amplitudes at all design frequencies")
STUBS = "fftconvolve by the definition of convolution; the FIR design of aspcore runs natively (concrete parameters)"

PAR = [(0.01, 343.0, 1000), (0.05, 343.0, 1000), (0.02, 340.0, 4000), (0.1, 343.0, 800), (0.03, 1500.0, 8000), (0.05, 343.0, None)]   # None: design frequencies are multiples of 100 Hz


def cases(tier):
    T = tier != "quick"
    return [dict(kind=k, order=o, par=p) for o in range(1, 6 if T else 4) for p in range(len(PAR)) for k in ("any", "waves") if T or p == 5 or (o + p) % 2 == 0 or k == "waves"]


def run(S, case):
    d = S.mod("aspsim.room.directional")
    dist, c, sr = PAR[case["par"]]
    o = case["order"]
    L = 2 * o + 1
    exact = sr is None
    sr = 100 * L if exact else sr
    tau = dist / c
    w = [2 * math.pi * k * sr / L for k in range(o + 1)]
    below = S.choose("below", [None, 0.6 * sr / L, 1.2 * sr / L, 2.5 * sr / L] if not exact else [0, 100, 200, 300, 250.5])
    n_low = 0 if below is None else len([k for k in range(o + 1) if (100 * k if exact else k * sr / L) <= below])
    gain = [0.0] + [(k / (n_low - 1)) ** 4 if k < n_low and n_low > 1 else 1.0 for k in range(1, o + 1)]      # nothing of the constant part
    kw = {} if below is None and S.bool("default") else dict(filter_below=below)
    M = S.cint("M", 1, 2)
    call = lambda a, b: d.differential_cardioid_microphone(a, b, dist, o, c, sr, **kw)
    if case["kind"] == "any":
        N = S.choose("N", [1, o + 1, 2 * o + 4])
        a, b = S.reals("a", (M, N), -10, 10), S.reals("b", (M, N), -10, 10)
        y = call(S.array(a), S.array(b))
        S.check("one output per pair, as long as the input", tuple(y.shape) == (M, N), str(y.shape))
        H1 = [0.0] + [gain[k] / (1 - cmath.exp(-2j * w[k] * tau)) for k in range(1, o + 1)]
        H2 = [0.0] + [-H1[k] * cmath.exp(-1j * w[k] * tau) for k in range(1, o + 1)]
        h1, h2 = ([sum(2 * (H[k] * cmath.exp(2j * math.pi * k * n / L)).real for k in range(1, o + 1)) / L for n in range(-o, o + 1)] for H in (H1, H2))
        for m in range(M):
            for t in range(N):
                acc = 0.0
                for s in range(N):
                    if -o <= t - s <= o:
                        acc = acc + a[m, s] * h1[t - s + o] + b[m, s] * h2[t - s + o]
                S.check("output of pair %d: both signals through their filters, without delay" % m, S.close(y[m, t], acc), "t=%d" % t)
        return
    # plane waves along the axis of the pair: arbitrary amplitudes at every design frequency
    N = 2 * o + 4
    A, B = S.reals("A", (M, o + 1), -10, 10), S.reals("B", (M, o + 1), -10, 10)

    def wave(m, delay, t, g=None):
        acc = 0.0
        for k in range(o + 1):
            f = 1.0 if g is None else g[k]
            acc = acc + A[m, k] * (f * math.cos(w[k] * (t / sr - delay))) + B[m, k] * (f * math.sin(w[k] * (t / sr - delay)))
        return acc
    near = S.array([[wave(m, 0.0, t) for t in range(N)] for m in range(M)])
    far = S.array([[wave(m, tau, t) for t in range(N)] for m in range(M)])
    front, rear = call(near, far), call(far, near)
    S.check("one output per pair, as long as the input", tuple(front.shape) == (M, N) == tuple(rear.shape), "%s %s" % (front.shape, rear.shape))
    for m in range(M):
        for t in range(o, N - o):
            S.check("a wave from the front is heard as at the main microphone", S.close(front[m, t], wave(m, 0.0, t, gain)), "t=%d" % t)
            S.check("a wave from the rear is cancelled", S.close(rear[m, t], 0.0), "t=%d" % t)
