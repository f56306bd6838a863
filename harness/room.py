"""A stand-in for the pyroomacoustics room: its responses are an arbitrary (generic linear)
function of source position, microphone position and every room parameter it was given."""
import numpy as _n

A = [0.31, -0.47, 0.83, 0.29, -0.61, 0.37, 0.53]


class Log:
    def __init__(self):
        self.rooms = []
        self.consts = {}
        self.rt60 = None


def taps(room_size, e, fs, order, rand, disp, consts, src, mic, n):
    """the n taps for one source position and one mic position (in room coordinates)"""
    out = []
    for k in range(n):
        v = A[k % 7] + 0.11 * k
        for d in range(len(src)):
            v = v + (A[(k + d) % 7] + 0.05 * d) * mic[d] + (A[(k + d + 2) % 7] - 0.03 * d - 0.02 * k) * src[d]
        for d in range(len(room_size)):
            v = v + 0.013 * (d + 1) * (k + 1) * room_size[d]
        v = v + 0.17 * e + 0.0007 * (k + 1) * fs + 0.019 * order * (k + 1) + (0.23 if rand else 0.0)
        v = v + 0.0011 * consts.get("c", 0) + 0.0013 * consts.get("frac_delay_length", 0)
        out.append(v)
    return out


def sabine(rt60, room_size):
    return 0.5 - 0.1 * rt60 + 0.01 * sum(room_size[i] for i in range(len(room_size))), 3


def install(S, lengths=None):
    """patch pyroomacoustics; lengths(src_idx, mic_idx) = number of taps of that response"""
    import pyroomacoustics as pra
    log = Log()
    lengths = lengths or (lambda i, j: 2)

    class Material:
        def __init__(self, energy_absorption, *a, **k):
            self.e = energy_absorption

    class MicrophoneArray:
        def __init__(self, R, fs=None, directivity=None, *a, **k):
            self.R, self.fs = R, fs

    class ShoeBox:
        def __init__(self, p, fs=8000, materials=None, max_order=1, use_rand_ism=False, max_rand_disp=0.08, **k):
            self.p, self.fs, self.materials, self.max_order = p, fs, materials, max_order
            self.rand, self.disp = use_rand_ism, max_rand_disp
            self.src, self.mic_array, self.rir = [], None, None
            log.rooms.append(self)

        def add_source(self, position, *a, **k):
            self.src.append(position)
            return self

        def add_microphone_array(self, m, *a, **k):
            self.mic_array = m
            return self
        add_microphone = add_microphone_array

        def compute_rir(self):
            R = self.mic_array.R
            self.rir = []
            # an interpolation filter of one sample gives nan in pyroomacoustics (its window divides by the length - 1)
            bad = log.consts.get("frac_delay_length", 81) < 3
            for j in range(R.shape[1]):
                self.rir.append([S.array(taps(self.p, self.materials.e, self.fs, self.max_order, self.rand, self.disp,
                                              log.consts, s, R[:, j], lengths(i, j))) * (float("nan") if bad else 1.0) for i, s in enumerate(self.src)])

        def measure_rt60(self, *a, **k):
            if log.rt60 == "short":
                raise ValueError
            if log.rt60 is not None:
                return log.rt60([m for m in self.mic_array.R.T], self.src)
            return _n.zeros((1, 1)) if not S.symbolic else S.np.zeros((1, 1))

    class Consts:
        def set(self, name, val):
            log.consts[name] = val

        def get(self, name):
            return log.consts[name]
    for n, v in dict(ShoeBox=ShoeBox, MicrophoneArray=MicrophoneArray, Material=Material, constants=Consts(),
                     inverse_sabine=sabine).items():
        S.patch("pyroomacoustics", n, v)
    m = S.mod("aspsim.room.roomimpulseresponse")
    # descriptive metadata only: truncation level in dB, shortest distance
    for n, v in dict(calc_truncation_info=lambda *a, **k: (0.0, 0.0)).items():
        if hasattr(m, n):
            S.patch("aspsim.room.roomimpulseresponse", n, v)
    if hasattr(m, "distfuncs"):
        class D:
            @staticmethod
            def cdist(a, b, *k, **kw):
                return _n.ones((len(a), len(b)))
        S.patch("aspsim.room.roomimpulseresponse", "distfuncs", D)
    return log


def expected(S, cfg, src_pos, mic_pos, n, length=None):
    """responses (num_src, num_mic, n) of the room described by cfg, each of `length(i, j)` taps cut or padded to n"""
    size = list(cfg.room_size)
    off = [s / 2 - c for s, c in zip(size, cfg.room_center)]
    if cfg.rt60 > 0:
        e, order = sabine(cfg.rt60, size)
        order += 8
    else:
        e, order = 0.9, 0
    # the responses of the room are delayed by half of the interpolation filter
    consts = dict(c=cfg.c, frac_delay_length=2 * cfg.extra_delay + 1)
    out = []
    for i in range(len(src_pos)):
        row = []
        for j in range(len(mic_pos)):
            L = length(i, j) if length else n
            s = [src_pos[i][d] + off[d] for d in range(3)]
            m = [mic_pos[j][d] + off[d] for d in range(3)]
            t = taps(size, e, cfg.samplerate, order, cfg.randomized_ism, 0.05, consts, s, m, L)[:n]
            row.append(t + [0.0] * (n - len(t)))
        out.append(row)
    return S.array(out)


def highpass(S):
    """stand-in for the zero-phase highpass: any operation on each response that depends on cutoff and rate"""
    def filter_rirs(rir, sr, cutoff):
        return rir + 0.25 + 0.01 * cutoff + 0.0003 * sr
    if hasattr(S.mod("aspsim.room.roomimpulseresponse"), "filter_rirs"):
        S.patch("aspsim.room.roomimpulseresponse", "filter_rirs", filter_rirs)
    return filter_rirs


def storage(S):
    """in-memory stand-in for dill (both modes) and, for symbolic values, yaml"""
    import copy
    import dill
    import yaml
    store = []

    def dump(obj, f, *a, **k):
        store.append(copy.deepcopy(obj))
        f.write(b"%d" % (len(store) - 1))

    def load(f, *a, **k):
        return copy.deepcopy(store[int(f.read())])

    def ydump(obj, f=None, *a, **k):
        store.append(copy.deepcopy(obj))
        f.write("stored: %d" % (len(store) - 1))

    ysafe = yaml.safe_load

    def yload(f, *a, **k):
        t = f.read() if hasattr(f, "read") else f
        if t.startswith("stored: "):
            return copy.deepcopy(store[int(t[8:])])
        return ysafe(t)
    S.patch("dill", "dump", dump)
    S.patch("dill", "load", load)
    if S.symbolic:
        S.patch("yaml", "dump", ydump)
        S.patch("yaml", "safe_load", yload)
    return store
