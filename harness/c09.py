"""C09: playback of a given sequence."""
ID = "C09"
BOUNDS = "sequences of 1..3 samples (quick) / 1..5, 1-2 channels, symbolic values and amplitude, 3 requests of 0..5 / 0..7 samples, all end modes; plus 7 samples in 4 channels with fixed requests of up to 25 samples"
STUBS = "none"


def cases(tier):
    T = tier != "quick"
    return [dict(mode=m, L=3 if not T else 5, k=3, n=5 if not T else 7) for m in ("repeat", "zeros", "raise")] + \
           [dict(mode="1d", L=3, k=2, n=5)] + \
           [dict(mode=m, L=7, k=len(r), n=r, ch=4) for m, r in (("repeat", [4, 25, 0, 3]), ("zeros", [5, 11, 2]), ("raise", [3, 4, 1]), ("1d", [20, 7, 3]))]


def run(S, case):
    src = S.mod("aspsim.signal.sources")
    big = isinstance(case["n"], list)
    L = case["L"] if big else S.cint("L", 1, case["L"])
    ch = case.get("ch") or S.cint("ch", 1, 2)
    mode = case["mode"]
    if mode == "1d":
        ch, mode = 1, "repeat"
    x = S.reals("x", (case.get("ch", 2), case["L"]))
    x = x[:ch, :L]
    audio = S.array(x if case["mode"] != "1d" else x[0, :])
    amp = S.real("amp", -2, 2)
    unit = S.bool("unit")
    s = src.Sequence(audio, end_mode=mode) if unit else src.Sequence(audio, amp, end_mode=mode)
    if unit:
        amp = 1
    S.check("channel count", s.num_channels == ch)
    t = 0
    for i in range(case["k"]):
        n = case["n"][i] if big else S.cint("n%d" % i, 0, case["n"])
        if mode == "raise" and t + n > L:
            e = S.raises(lambda: s.get_samples(n))
            S.check("raises when samples past the end are requested", e is not None)
            return
        p = s.get_samples(n)
        S.check("shape", tuple(p.shape) == (ch, n))
        for j in range(n):
            u = t + j
            for c in range(ch):
                w = amp * x[c, u % L] if (mode == "repeat" or u < L) else 0.0
                S.eq("sample of the sequence, scaled", p[c, j], w, "mode=%s L=%d t=%d" % (mode, L, u))
        if n and S.bool("write"):
            p[0, 0] = 7.0       # the caller owns what it got
        t += n
    for c in range(ch):
        for j in range(L):
            S.eq("the given sequence is not modified", (audio if case["mode"] != "1d" else audio[None, :])[c, j], x[c, j])
