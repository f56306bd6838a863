"""C30: audio files hold what was recorded, and are read as (channels, samples) at the desired rate."""
import math
import numpy as np
from pathlib import Path
from . import common as K

ID = "C30"
BOUNDS = ("exports of 1-2 channels and up to 8 (quick) / 14 recorded samples (once more 24), and of prepared signals with 9-31 / 9-51 samples; files of 1-3 channels and up to 8 / 12 samples, "
          "sample rates from a fixed list (12 ratios); sample values symbolic")
STUBS = ("soundfile.write / soundfile.read are replaced by a recorder and a fixed content; scipy's polyphase resampling is applied as the linear map that the compiled code computes")


class Files:
    """stands in for the soundfile module"""
    def __init__(self, S, content=None, rate=None):
        self.S, self.content, self.rate, self.written = S, content, rate, {}

    def write(self, file, data, samplerate, *a, **k):
        data = self.S.np.asarray(data)
        self.written[str(file)] = (data.copy(), samplerate)

    def read(self, file, frames=-1, start=0, stop=None, dtype="float64", always_2d=False, **k):
        d = self.content
        if d.shape[1] == 1 and not always_2d:
            d = d[:, 0]
        return d.copy(), self.rate


def cases(tier):
    T = tier != "quick"
    n = 8 if not T else 14
    base = dict(free=[("s", 2)], mics=[("m", 1)], ir=1, out="pdf", exp=[3, n], chunk=3, buf=4, bs=0)
    return [dict(base, kind="run", tot=n), dict(base, kind="run", tot=24, exp=[7, 8], chunk=7, buf=9)] + [dict(kind="fade", n=v, sr=sr) for v, sr in ([(9, 100), (10, 100), (21, 100), (31, 10)] + ([(51, 100), (51, 10)] if T else []))] + \
        [dict(kind="read", n=8 if not T else 12)]


def run(S, case):
    globals()["run_" + case["kind"]](S, case)


def peaked(S, name, ch, n, at, low=False):
    """a signal of arbitrary values whose largest magnitude is a known number at a known place"""
    p = S.choose(name + "_peak", [0.5, -3.0] if not low else [0.5, -3.0, 2e-5])
    X = S.reals(name, (ch, n), -abs(p), abs(p))
    X[at] = p
    return X, abs(p)


def run_run(S, case):
    spec = K.resolve(S, case)
    tot, exp = spec["tot"], spec["exp"]
    core, dia = (S.mod("aspsim.diagnostics." + m) for m in ("core", "diagnostics"))
    fs = Files(S)
    S.patch("aspsim.diagnostics.plot", "sf", fs)
    a, b = S.choose("ab", [(0, tot), (0, 2), (1, tot)] + ([(exp, tot)] if exp < tot else []))
    points = list(range(exp, tot + 1, exp))
    n = K.num_source_samples(spec)
    silent = S.bool("silent")
    if silent:
        X, peak = np.zeros((2, n)), None
    else:
        X, peak = peaked(S, "x", 2, n, (S.cint("pc", 0, 1), a))      # the largest sample is the first recorded one
    st, x, h = K.build(S, spec, x=dict(s=X), base=S.scratch())
    sim = st.create_simulator()
    kw = {} if (a, b) == (0, tot) else dict(save_at=core.IntervalCounter([(a, b)]))
    scale = S.choose("gain", [1.0, 4.0])
    sim.diag.add_diagnostic("rec", dia.RecordSignal("s", sim.sim_info, num_channels=2, export_func="wav", preprocess=[[lambda v: v * scale]], **kw))
    sim.run_simulation()
    names = {Path(f).name: v for f, v in fs.written.items()}
    S.check("one file per export point", sorted(names) == sorted("rec_rec_%d.wav" % k for k in points), "%s %s" % (sorted(names), points))
    for k in points:
        if "rec_rec_%d.wav" % k not in names:
            continue
        got, sr = names["rec_rec_%d.wav" % k]
        S.check("sample rate of the simulation", sr == sim.sim_info.samplerate)
        idx = [t for t in range(k) if a <= t < b]
        S.check("one column per channel, one row per sample", tuple(got.shape) == (len(idx), 2), "%d: %s" % (k, got.shape))
        for c in range(2):
            for i, t in enumerate(idx):
                S.eq("silence stays silence" if silent else "recorded samples with the peak at one", got[i, c], 0.0 if silent else X[c, t] * fade(i, len(idx), sim.sim_info.samplerate) / peak, "k=%d c=%d t=%d" % (k, c, t))


def fade(t, n, sr):
    """fades over 0.2 s or a tenth of the length"""
    r = min(int(0.2 * sr), int(0.1 * n))
    f = 1.0
    if t < r:
        f = f * (t / (r - 1) if r > 1 else 0.0)
    if t >= n - r:
        f = f * (1 - ((t - n + r) / (r - 1) if r > 1 else 0.0))
    return f


def run_fade(S, case):
    n, sr = case["n"], case["sr"]
    dplt, dia, core = (S.mod("aspsim.diagnostics." + m) for m in ("plot", "diagnostics", "core"))
    fs = Files(S)
    S.patch("aspsim.diagnostics.plot", "sf", fs)
    ch = S.cint("ch", 1, 2)
    si = S.config(tot_samples=n, samplerate=sr)
    two = S.bool("two")
    X, peaks, diags = {}, {}, {}
    for name in ("one", "two")[:1 + two]:
        d = dia.RecordSignal("s", si, num_channels=ch, export_func="wav")
        X[name], peaks[name] = peaked(S, "x_" + name, ch, n, S.choose("at_" + name, [(0, 0), (ch - 1, n - 1), (ch - 1, n // 2)]), low=True)
        d.signal = S.array(X[name])
        diags[name] = d
    folder = S.scratch()
    dplt.create_audio_files("aud", diags, n, folder, [])
    names = {Path(f).name: v for f, v in fs.written.items()}
    S.check("one file per processor", sorted(names) == sorted("aud_%s_%d.wav" % (k, n) for k in diags), str(sorted(names)))
    for name in diags:
        got, rate = names["aud_%s_%d.wav" % (name, n)]
        S.check("sample rate of the simulation", rate == sr)
        S.check("one column per channel, one row per sample", tuple(got.shape) == (n, ch), str(got.shape))
        for c in range(ch):
            for t in range(n):
                f = fade(t, n, sr)
                S.eq("samples with the peak at one, faded in and out", got[t, c], X[name][c, t] * f / peaks[name], "c=%d t=%d" % (c, t))
        S.eq("the recorded signal is untouched", diags[name].signal, X[name])


RATIOS = [(8000, 8000), (8000, 4000), (12000, 4000), (48000, 16000), (44100, 22050), (44100, 14700), (6000, 4000), (5000, 3000), (48000, 44100), (10, 4), (9, 6), (7, 5)]


def resampled(S, x, up, down):
    """the linear map computed by scipy's polyphase resampling, applied to one channel"""
    import scipy.signal as sg
    n = len(x)
    M = np.stack([sg.resample_poly(e, up, down) for e in np.eye(n)], axis=1)
    out = []
    for row in M:
        acc = 0.0
        for k in range(n):
            acc = acc + float(row[k]) * x[k]
        out.append(acc)
    return out


def run_read(S, case):
    src = S.mod("aspsim.signal.sources")
    ch = S.cint("ch", 1, 3)
    n = S.cint("n", 1, case["n"])
    have, want = S.choose("rates", RATIOS)
    x = S.reals("x", (n, ch))
    S.patch("aspsim.signal.sources", "sf", Files(S, S.array(x), have))
    kw = {}
    if S.bool("rate"):
        kw["desired_sr"] = want
    else:
        S.assume(have == RATIOS[0][0] and want == RATIOS[0][1])
    take = S.cint("take", 0, ch)
    if take:
        kw["num_channels"] = take
    y = src.load_audio_file("some.wav", **kw)
    m = take or ch
    S.check("channels first", y.ndim == 2 and y.shape[0] == m, str(y.shape))
    for c in range(m):
        w = [x[t, c] for t in range(n)]
        if "desired_sr" in kw and want != have:
            g = math.gcd(want, have)
            w = resampled(S, w, want // g, have // g)
        S.check("as many samples as the rate gives", y.shape[1] == len(w), "%s %d" % (y.shape, len(w)))
        S.eq("channel %d of the file" % c, y[c], S.array(w))
