"""C08: generators give one stream however it is requested, equal to their definition."""
import math
import numpy as np

ID = "C08"
BOUNDS = ("streams of up to 5 samples (quick) / 9 (thorough) split into 3 requests of any sizes (2 requests, 2-3 / 4-5 samples where waveforms or filters are involved, "
          "there at least 1 sample per request); powers, amplitudes, frequencies, phases and random draws symbolic reals, integer periods 1..4 and delays 0..3 per "
          "channel, 1-2 channels; code sequences: orders 3-6 and 9, 10, 11, 13; autocorrelations of length 2-4 and the power of band-limited noise from fixed lists; every source once more with up to 6 channels and 2-4 fixed requests of up to 120 samples; one change of power after the first request")
STUBS = "random numbers are arbitrary values; the shift register of maximum length sequences (compiled scipy code) and the rehearsal by which band-limited noise measures its power run concretely"


def cases(tier):
    T = tier != "quick"
    n = 5 if not T else 9
    k = 3
    out = [dict(src=s, n=n, k=k) for s in ("white", "pulse", "counter", "gold", "mls")]
    out += [dict(src="pulse", n=n, k=2 if not T else 3, delay=1)]
    out += [dict(src=s, n=3 if not T else 5, k=2) for s in ("sine", "multisine")]
    out += [dict(src="sines", n=2 if not T else 4, k=2), dict(src="band", n=3 if not T else 5, k=2), dict(src="autocorr", n=3 if not T else 5, k=2),
            dict(src="array", n=3 if not T else 5, k=2), dict(src="longgold", n=3, k=2)]
    # larger streams and more channels, split in a fixed way
    out += [dict(src="white", n=[7, 1, 16], k=3, ch=[4, 4]), dict(src="pulse", n=[10, 1, 0, 14], k=4, delay=1, ch=[3, 3], per=[5, 1, 12], dl=[7, 3, 0]), dict(src="counter", n=[1, 0, 40, 3], k=4),
            dict(src="gold", n=[33, 1, 29], k=2, ch=[4, 4]), dict(src="mls", n=[13, 120], k=2), dict(src="sine", n=[1, 2], k=2, ch=[3, 3]), dict(src="multisine", n=[2, 1], k=2, sines=[4, 4]),
            dict(src="sines", n=[2, 1], k=2, ch=[4]), dict(src="band", n=[5, 4], k=2, ch=[2, 2]), dict(src="autocorr", n=[9, 12], k=2, ch=[2, 2]), dict(src="array", n=[2, 7], k=2, most=6)]
    return out


def split(S, n, k, least=0):
    """k consecutive request sizes, together at most n (or the given ones)"""
    if isinstance(n, list):
        return list(n)
    r = []
    left = n
    for i in range(k):
        a = S.cint("n%d" % i, least, left - least * (k - 1 - i))
        left -= a
        r.append(a)
    return r


def run(S, case):
    src = S.mod("aspsim.signal.sources")
    globals()["run_" + case["src"]](S, src, case)


def pull(S, s, req, ch):
    parts = []
    for n in req:
        p = s.get_samples(n)
        S.check("shape is (channels, samples)", tuple(p.shape) == (ch, n), "%s, %d" % (p.shape, n))
        parts.append(S.np.asarray(p))
    return S.np.concatenate(parts, axis=1)


def changed(S, s, req, ch, power):
    """the stream when the power is set anew after the first request, and the number of samples before that"""
    a = pull(S, s, req[:1], ch)
    s.set_power(power)
    return S.np.concatenate([a, pull(S, s, req[1:], ch)], axis=1), req[0]


def run_white(S, src, case):
    ch = S.cint("ch", *case.get("ch", [1, 2]))
    std = S.reals("std", (max(2, ch),), 0, 2)
    power = std ** 2
    req = split(S, case["n"], case["k"])
    form = S.choose("form", ["scalar", "vector"])
    p = power[0] if form == "scalar" else S.array(power[:ch])
    a = pull(S, src.WhiteNoiseSource(ch, p, S.rng("r")), req, ch)
    b = pull(S, src.WhiteNoiseSource(ch, p, S.rng("r")), [sum(req)], ch)
    S.eq("same stream for every split", a, b)
    # each sample is its own draw, scaled by the standard deviation of its channel
    r = S.rng("r")
    want = r.normal(size=(sum(req), ch)).T if sum(req) else S.np.zeros((ch, 0))
    for c in range(ch):
        sd = std[0] if form == "scalar" else std[c]
        S.eq("scaled by the square root of the power", a[c, :], want[c, :] * sd)
    q = S.real("q", 0, 2)
    a, at = changed(S, src.WhiteNoiseSource(ch, p, S.rng("r")), req, ch, q ** 2)
    for c in range(ch):
        sd = std[0] if form == "scalar" else std[c]
        S.eq("a new power holds from the next request on", a[c, :], S.np.concatenate([want[c, :at] * sd, want[c, at:] * q]))


def run_pulse(S, src, case):
    ch = S.cint("ch", *case.get("ch", [1, 2]))
    amp = S.reals("amp", (max(2, ch),), -2, 2)
    per = case.get("per") or [S.cint("p%d" % c, 1, 4) for c in range(ch)]
    dl = case.get("dl") or [S.cint("d%d" % c, 0, 3) if case.get("delay") else 0 for c in range(ch)]
    req = split(S, case["n"], case["k"])
    args = dict(delay=dl) if case.get("delay") else {}
    if ch == 1 and S.bool("scalar"):
        per_arg, amp_arg = per[0], amp[0]
        args = dict(delay=dl[0]) if case.get("delay") else {}
    else:
        per_arg, amp_arg = per, S.array(amp[:ch])
    mk = lambda: src.PulseTrain(ch, amp_arg, per_arg, **args)
    a = pull(S, mk(), req, ch)
    n = sum(req)
    for c in range(ch):
        for t in range(n):
            hit = (t - dl[c]) % per[c] == 0
            S.eq("pulse every period, first one at the delay (mod period)", a[c, t], amp[c] if hit else 0.0, "c=%d t=%d" % (c, t))


def run_counter(S, src, case):
    st = S.int("start")
    req = split(S, case["n"], case["k"])
    a = pull(S, src.Counter(1, st), req, 1)
    for t in range(sum(req)):
        S.eq("counts up from the start number", a[0, t], st + t)


def run_gold(S, src, case):
    ch = S.cint("ch", *case.get("ch", [1, 2]))
    amp = S.reals("amp", (max(2, ch),), 0, 2)
    order = 5
    L = 2 ** order - 1
    form = S.choose("form", ["scalar", "vector"])
    p = amp[0] ** 2 if form == "scalar" else S.array(amp[:ch] ** 2)
    if form == "scalar":
        p = S.array([[p]])
    skip = S.choose("skip", [0, L - 1, L - 3, L, 2 * L - 1])
    req = [skip] + split(S, case["n"], 2)
    a = pull(S, src.GoldSequenceSource(ch, p, order), req, ch)
    whole = src.GoldSequenceSource(ch, S.array([[1.0]]), order).get_samples(L)
    S.check("values are +-1", bool(S.np.all((whole == 1) | (whole == -1))))
    for c in range(ch):
        S.check("channels are different codes", not any(bool(S.np.all(whole[c] == whole[d])) for d in range(c)))
    for c in range(ch):
        A = amp[0] if form == "scalar" else amp[c]
        for t in range(sum(req)):
            if t < 3 or t > skip - 2:
                S.eq("repeats its code", a[c, t], whole[c, t % L] * A, "t=%d" % t)
    q = S.real("q", 0, 2)
    a, at = changed(S, src.GoldSequenceSource(ch, p, order), req, ch, S.array([[q ** 2]]))
    for c in range(ch):
        A = amp[0] if form == "scalar" else amp[c]
        for t in range(sum(req)):
            if t < 3 or t > skip - 2:
                S.eq("the code goes on with a new power", a[c, t], whole[c, t % L] * (A if t < at else q), "t=%d" % t)


def lfsr(order, taps, state, n):
    """maximum length sequence by the recurrence a[t+order] = a[t] xor a[t+tap] ..."""
    a = list(state)
    for t in range(n):
        v = a[t]
        for tap in taps:
            v ^= a[t + tap]
        a.append(v)
    return a[:n]


def run_mls(S, src, case):
    order, taps = S.choose("poly", [(3, [2]), (4, [3]), (5, [2]), (6, [5])])
    st = [S.cint("s%d" % i, 0, 1) if i < 3 else 1 for i in range(order)]
    S.assume(any(st))
    req = [max(1, r) for r in split(S, case["n"], 2)]
    given = S.bool("given")
    s = src.MLS(1, order, taps, state=st) if given else src.MLS(1, order, taps)
    parts = [S.np.asarray(s.get_samples(n)).reshape(-1) for n in req]
    a = S.np.concatenate(parts)
    want = lfsr(order, taps, st if given else [1] * order, sum(req))
    S.eq("continues the code from its start state", a, S.array([float(2 * v - 1) for v in want]))


def run_sine(S, src, case):
    ch = S.cint("ch", *case.get("ch", [1, 2]))
    amp = S.real("amp", 0, 2)
    fs = 1000
    f = S.real("f", 1, 499)
    req = split(S, case["n"], case["k"])
    s = src.SineSource(ch, amp ** 2 / 2, f, fs, S.rng("r"))
    ph = S.array([s.phase[c, 0] for c in range(ch)])
    a = pull(S, s, req, ch)
    r = S.rng("r").uniform(low=0, high=2 * math.pi, size=(ch, 1))
    for c in range(ch):
        S.eq("start phase is the random draw", ph[c], r[c, 0])
        for t in range(sum(req)):
            S.eq("sinusoid of the given power, frequency and phase", a[c, t], amp * S.np.cos(2 * math.pi * f / fs * t + ph[c]))


def run_multisine(S, src, case):
    amp = S.real("amp", 0, 2)
    fs = 1000
    k = S.cint("k", *case.get("sines", [1, 2]))
    f = S.reals("f", (max(2, k),), 1, 499)[:k]
    req = split(S, case["n"], case["k"])
    s = src.MultiSineSource(1, amp ** 2 * k / 2, S.array(f), fs, S.rng("r"))
    ph = S.array([s.phase[c] for c in range(k)])
    a = pull(S, s, req, 1)
    for t in range(sum(req)):
        w = 0
        for c in range(k):
            w = w + amp * S.np.cos(2 * math.pi * f[c] / fs * t + ph[c])
        S.eq("sum of sinusoids sharing the power", a[0, t], w)


def run_sines(S, src, case):
    """one power per channel"""
    ch = case.get("ch", [2])[0]
    amp = S.reals("amp", (ch,), 0, 2)
    fs = 1000
    f = S.real("f", 1, 499)
    req = split(S, case["n"], case["k"])
    s = src.SineSource(ch, S.array([v ** 2 / 2 for v in amp]), f, fs, S.rng("r"))
    a = pull(S, s, req, ch)
    r = S.rng("r").uniform(low=0, high=2 * math.pi, size=(ch, 1))
    for c in range(ch):
        for t in range(sum(req)):
            S.eq("each channel has its own power", a[c, t], amp[c] * S.np.cos(2 * math.pi * f / fs * t + r[c, 0]))


class Rehearsed:
    """a generator whose long draws (a source measuring its own power) are plain numbers"""
    def __init__(self, r):
        self.r = r

    def normal(self, *a, size=None, **k):
        if np.prod(size) >= 1000:
            return np.random.default_rng(0).normal(*a, size=size, **k)
        return self.r.normal(*a, size=size, **k)

    def __getattr__(self, n):
        return getattr(self.r, n)


def run_band(S, src, case):
    ch = S.cint("ch", *case.get("ch", [1, 2]))
    p = S.choose("power", [1.0, 4.0, 0.25, "each"])
    fs = 1000
    req = split(S, case["n"], case["k"], 1)
    power = S.array([4.0, 1.0][:ch]) if p == "each" else p
    mk = lambda q: src.BandlimitedNoiseSource(ch, q, (30, 470), fs, Rehearsed(S.rng("r")))
    a = pull(S, mk(power), req, ch)
    n = sum(req)
    S.eq("same stream for every split", a, pull(S, mk(power), [n], ch))
    # without its own initial state, the output is the filtered noise, scaled to its power
    still = pull(S, mk(0.0), [n], ch)
    unit = pull(S, mk(1.0), [n], ch) - still
    for c in range(ch):
        A = math.sqrt([4.0, 1.0][c] if p == "each" else p)
        S.eq("scaled by the square root of the power", a[c] - still[c], unit[c] * A)
    r = S.rng("r").normal(size=(n, ch)).T if n else S.np.zeros((ch, 0))
    h = impulse(fs, n)
    g = 1 / math.sqrt(band_power(ch, fs))
    for c in range(ch):
        for t in range(n):
            w = sum(h[k] * r[c, t - k] for k in range(t + 1))
            S.eq("band-pass filtered noise of its own", unit[c, t], g * w, "c=%d t=%d" % (c, t))
    if len(req) > 1:
        a, at = changed(S, mk(1.0), req, ch, 4.0)
        for c in range(ch):
            for t in range(n):
                w = sum(h[k] * r[c, t - k] * (1 if t - k < at else 2) for k in range(t + 1))
                S.eq("a new power holds for the noise from the next request on", a[c, t] - still[c, t], g * w, "c=%d t=%d" % (c, t))


def impulse(fs, n):
    import scipy.signal as sg
    x = np.zeros(max(n, 1))
    x[0] = 1
    return [float(v) for v in sg.sosfilt(sg.butter(16, [30, 470], btype="bandpass", output="sos", fs=fs), x)]


def band_power(ch, fs):
    """mean power of the unscaled filter output in the rehearsal"""
    import scipy.signal as sg
    x = np.random.default_rng(0).normal(size=(ch, 10000))
    return float(np.mean(sg.sosfilt(sg.butter(16, [30, 470], btype="bandpass", output="sos", fs=fs), x) ** 2))


def run_autocorr(S, src, case):
    ch = S.cint("ch", *case.get("ch", [1, 2]))
    r = np.array(S.choose("corr", [[[1.0, 0.5], [2.0, -0.5]], [[1.0, 0.5, 0.125], [0.5, 0.0, -0.25]], [[4.0, 2.0, 1.5, 1.0], [1.0, 0.25, 0.25, 0.0]]]))[:ch]
    req = split(S, case["n"], case["k"], 1)
    mk = lambda: src.AutocorrSource(ch, S.array(r), S.rng("r"))
    a = pull(S, mk(), req, ch)
    n = sum(req)
    S.eq("same stream for every split", a, pull(S, mk(), [n], ch))
    # driven by its own noise, each channel is the recursion that has the given correlations
    P = r.shape[1] - 1
    used = mk().rng.i
    g = S.rng("r")
    g.i = used
    e = g.normal(size=(n, ch)).T if n else S.np.zeros((ch, 0))
    for c in range(ch):
        R = np.array([[r[c, abs(i - j)] for j in range(P)] for i in range(P)])
        co = np.linalg.solve(R, r[c, 1:])
        sd = math.sqrt(r[c, 0] - float(np.dot(co, r[c, 1:])))
        for t in range(P, n):
            w = sd * e[c, t]
            for k in range(P):
                w = w + float(co[k]) * a[c, t - 1 - k]
            S.eq("recursion with the given correlations", a[c, t], w, "c=%d t=%d" % (c, t))


def run_array(S, src, case):
    """several one-channel sources side by side"""
    st = S.int("start", -50, 50)
    k = S.cint("k", 1, case.get("most", 3))
    each = S.bool("each")
    req = split(S, case["n"], case["k"])
    # the first argument of a source is its number of channels
    s = src.SourceArray(src.Counter, k, [1] * k if each else 1, st)
    a = pull(S, s, req, k)
    for c in range(k):
        for t in range(sum(req)):
            S.eq("every source of the array counts", a[c, t], st + t)


def run_longgold(S, src, case):
    """code lengths without a table entry"""
    amp = S.real("amp", 0, 2)
    order = S.choose("order", [9, 10, 11, 13])
    L = 2 ** order - 1
    skip = S.choose("skip", [0, L - 1, L - 2])
    req = [skip] + split(S, case["n"], case["k"])
    whole = np.array(src.GoldSequenceSource(3, 1.0, order).get_samples(L), dtype=float)
    S.check("values are +-1", bool(np.all(np.abs(whole) == 1)))
    S.check("channels are different codes", all(not bool(np.all(whole[i] == whole[j])) for i in range(3) for j in range(i)))
    a = pull(S, src.GoldSequenceSource(3, amp ** 2, order), req, 3)
    for c in range(3):
        for t in range(max(0, skip - 2), sum(req)):
            S.eq("repeats its code", a[c, t], whole[c, t % L] * amp, "t=%d" % t)
