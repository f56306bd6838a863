"""C20: path setup - every pair gets a response of its type, shape and alignment."""
import re
from . import common as K
from . import room as R

ID = "C20"
BOUNDS = ("1-3 sources x 1-3 mics per array, all path types per pair (none, direct, random, ism, default, user), room response lengths 1..5 per pair against configured "
          "length 1..4, one more microphone than fits in one room computation, all positions / room sizes / centres symbolic; high-pass at 1.5 of 4000 Hz; array names which give the same strings for different pairs")
STUBS = ("pyroomacoustics room (a generic function of everything it is given); the highpass likewise in the cases about parameters, while its own case filters with the matrix "
         "scipy's compiled filter gives for concrete coefficients")


def cases(tier):
    T = tier != "quick"
    return [
        dict(kind="ism", ns=[1, 2], nm=[1, 2], n=[1, 4 if T else 3], L=[1, 5 if T else 4]),
        dict(kind="types", ns=[1, 2], nm=[1, 2]),
        dict(kind="user", ns=[1, 2], nm=[1, 2]),
        dict(kind="blocks", nm=501),
        dict(kind="blocks", nm=1003 if T else 500),
        dict(kind="names"),
        dict(kind="params"),
        dict(kind="refuse"),
        dict(kind="highpass", n=[1, 4 if T else 3]),
        dict(kind="highpass", n=[2, 2], high=True),
        dict(kind="metadata"),
        dict(kind="truncation", L=[1, 3 if T else 2]),
    ]


def base():
    return dict(tot_samples=4, sim_chunk_size=4, sim_buffer=4, plot_output="none", reverb="ism", samplerate=100, c=343.0, rt60=0.25,
                room_size=[4.0, 5.0, 3.0], room_center=[0.5, -0.25, 1.0], randomized_ism=False, extra_delay=12, highpass_cutoff=0.0, max_room_ir_length=2)


def src(st, S, name, pos, kind="free"):
    if kind == "free":
        st.add_free_source(name, pos, K.ListSource(S, S.array([[0.0] for _ in range(len(pos))])))
    else:
        st.add_controllable_source(name, pos)


def zero_phase(cut, fs, m):
    """autocorrelation of the second order Butterworth highpass, from its frequency response"""
    import math
    N = 1 << 14
    r = [0.0] * m
    w0 = math.tan(math.pi * cut / fs)
    for k in range(N):
        t = math.tan(math.pi * k / N) if 2 * k != N else 1e12
        g = 1.0 / (1.0 + (w0 / t) ** 4) if t != 0 else 0.0          # |H|^2, bilinear transform
        for i in range(m):
            r[i] += g * math.cos(2 * math.pi * k * i / N) / N
    return r


def Ysym(x):
    from symex.sym import is_sym
    return is_sym(x)


def sorted_(S, v):
    """a small list in rising order"""
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = S.ite(a <= b, a, b), S.ite(a <= b, b, a)
    return v


def top(S, h):
    m = abs(h[0])
    for v in h[1:]:
        m = S.ite(abs(v) > m, abs(v), m)
    return m


def run(S, case):
    kind = case["kind"]
    if kind == "ism":
        ns, nm = S.cint("ns", *case["ns"]), S.cint("nm", *case["nm"])
        n = S.cint("n", *case["n"])
        L0 = [S.cint("L%d" % i, *case["L"]) for i in range(2)]
        ln = lambda i, j: L0[(i + j) % 2]
        log = R.install(S, ln)
        st = S.setup(**dict(base(), max_room_ir_length=n, extra_delay=S.choose("ed", [0, 1, 12])))
        ps, pm = S.reals("ps", (ns, 3)), S.reals("pm", (nm, 3))
        src(st, S, "s", ps, S.choose("kind", ["free", "ctrl"]))
        st.add_mics("m", pm)
        st.add_mics("k", K.pos(1, 4))
        sim = st.create_simulator()
        if st.sim_info.extra_delay == 0:
            S.check("responses are numbers without extra delay", not any(S.is_nan(x) for x in sim.arrays.paths["s"]["m"].reshape(-1)))
            return
        S.eq("image-source responses are placed, cut and padded", sim.arrays.paths["s"]["m"], R.expected(S, st.sim_info, ps, pm, n, ln), "L=%s n=%d" % (L0, n))
        S.eq("second array", sim.arrays.paths["s"]["k"], R.expected(S, st.sim_info, ps, K.pos(1, 4), n, ln))
        S.check("type is noted", sim.arrays.path_info["s->m"]["type"] == "ism")
    elif kind == "names":
        # each pair has its own response, type and user path whatever the arrays are called
        R.install(S, lambda i, j: 3)
        ss, ms = K.names(S)
        st = S.setup(**base())
        for i, a in enumerate(ss):
            src(st, S, a, K.pos(1, i))
        for i, b in enumerate(ms):
            st.add_mics(b, K.pos(1, 5 + i))
        t = {a: {b: S.choose("t%d%d" % (i, j), ["none", "direct", "ism"]) for j, b in enumerate(ms) if (i, j) != (0, 1)} for i, a in enumerate(ss)}
        st.arrays.set_path_types(t)
        u = S.reals("u", (1, 1, 2))
        st.set_path(ss[0], ms[1], u)
        sim = st.create_simulator()
        for i, a in enumerate(ss):
            for j, b in enumerate(ms):
                v = t[a].get(b)
                want = u if v is None else S.np.zeros((1, 1, 1)) if v == "none" else S.np.ones((1, 1, 1)) if v == "direct" else R.expected(S, st.sim_info, K.pos(1, i), K.pos(1, 5 + j), 2, lambda i, j: 3)
                S.check("type of the pair", sim.arrays.path_type[a][b] == (v or "modified"))
                S.eq("path of the pair", sim.arrays.paths[a][b], want, "%s %s" % (a, b))
    elif kind == "params":
        log = R.install(S, lambda i, j: 3)
        hp = R.highpass(S)
        rt = S.real("rt60", -1, 1)
        hc = S.real("hc", -10, 10)
        cfg = dict(base(), samplerate=S.int("fs", 50, 200), c=S.real("c", 300, 400), rt60=rt, room_size=[S.real("z%d" % i, 2, 9) for i in range(3)],
                   room_center=[S.real("o%d" % i, -3, 3) for i in range(3)], randomized_ism=S.bool("rand"), extra_delay=S.int("ed", 1, 40), highpass_cutoff=hc)
        st = S.setup(**cfg)
        ps, pm = S.reals("ps", (1, 3)), S.reals("pm", (2, 3))
        src(st, S, "s", ps)
        st.add_mics("m", pm)
        sim = st.create_simulator()
        want = R.expected(S, st.sim_info, ps, pm, 2, lambda i, j: 3)
        if hc > 0:
            want = hp(want, cfg["samplerate"], hc)
        S.eq("room parameters are those of the configuration", sim.arrays.paths["s"]["m"], want)
    elif kind == "highpass":
        # the zero-phase filter itself: |H|^2 of a second order Butterworth highpass, applied without delay
        R.install(S, lambda i, j: 3)
        n = S.cint("n", *case["n"])
        fs, cut = S.choose("cut", [(100, 10.0), (100, 20.0), (100, 35.5)]) if not case.get("high") else (4000, 1.5)
        st = S.setup(**dict(base(), samplerate=fs, max_room_ir_length=n, highpass_cutoff=cut, reverb=S.choose("reverb", ["ism", "direct"])))
        ps, pm = S.reals("ps", (2, 3)), S.reals("pm", (2, 3))
        src(st, S, "s", ps)
        st.add_mics("m", pm)
        sim = st.create_simulator()
        p = sim.arrays.paths["s"]["m"]
        x = {"ism": lambda: R.expected(S, st.sim_info, ps, pm, n, lambda i, j: 3), "direct": lambda: S.array([[[1.0], [0.0]], [[0.0], [1.0]]]).reshape(2, 2, 1)}[st.sim_info.reverb]()
        m = x.shape[2]
        S.check("as long as the response", tuple(p.shape) == (2, 2, m), str(p.shape))
        r = zero_phase(cut, fs, m)
        want = S.array([[[sum(x[i, j, k] * r[abs(t - k)] for k in range(m)) for t in range(m)] for j in range(2)] for i in range(2)])
        for i in range(2):
            for j in range(2):
                for t in range(m):
                    d = p[i, j, t] - want[i, j, t]
                    big = 1.0 + sum(abs(x[i, j, k]) for k in range(m))
                    S.check("highpass without delay", S.and_(d <= 1e-6 * big, d >= -1e-6 * big), "cut=%s n=%d t=%d" % (cut, m, t))
    elif kind == "metadata":
        # the measured reverberation times and the room parameters are noted with the pair they belong to
        log = R.install(S, lambda i, j: 3)
        rt = S.choose("rt60", [0.25, 0])
        st = S.setup(**dict(base(), rt60=rt))
        ns, nm = S.cint("ns", 1, 2), S.cint("nm", 1, 2)
        src(st, S, "s", K.pos(ns, 0))
        st.add_mics("m", K.pos(nm, 2))
        st.add_mics("k", K.pos(1, 3))
        st.arrays.set_path_types(dict(s=dict(k=S.choose("other", ["none", "ism"]))))
        t = S.reals("t", (2, 2), 0.1, 1)
        short = S.bool("short")
        log.rt60 = "short" if short else lambda mics, srcs: S.array(t[:len(mics), :len(srcs)])
        sim = st.create_simulator()
        info = sim.arrays.path_info["s->m"].get("ism_info")
        e, order = R.sabine(rt, base()["room_size"]) if rt else (0.9, 0)
        S.check("room parameters are noted", info is not None and abs(info["Energy Absorption"] - e) < 1e-9 and info["Max ISM order"] == (order + 8 if rt else 0), str(info))
        S.check("only pairs from the room have such notes", ("ism_info" in sim.arrays.path_info["s->k"]) == (sim.arrays.path_type["s"]["k"] == "ism"))
        vals = [info["Measured RT60 (%s)" % v] for v in ("min", "median", "mean", "max")]
        used = [t[j, i] for j in range(nm) for i in range(ns)]
        if not rt:
            S.check("nothing to measure without reverberation", vals == [0, 0, 0, 0], str(vals))
        elif short:
            S.check("a failed measurement is noted", vals == ["failed"] * 4, str(vals))
        else:
            lo, med, mean, hi = vals
            S.check("least reverberation time", S.and_(S.or_(*[lo == v for v in used]), *[lo <= v for v in used]))
            S.check("largest reverberation time", S.and_(S.or_(*[hi == v for v in used]), *[hi >= v for v in used]))
            S.check("mean reverberation time", S.close(mean * len(used), sum(used)))
            srt = sorted_(S, used)
            k = len(used)
            S.check("median reverberation time", S.close(2 * med, srt[(k - 1) // 2] + srt[k // 2]))
    elif kind == "truncation":
        # what is cut off from the responses is reported in dB
        f = getattr(S.mod("aspsim.room.roomimpulseresponse"), "calc_truncation_info", None)
        if f is None:        # not part of the documented interface
            return
        N = 2
        L = [S.cint("L%d" % i, *case["L"]) for i in range(2)]
        n = S.cint("n", 1, 3)
        rirs = [[S.array([S.real("h%d%d%d" % (j, i, t), 0.1, 2) * (-1) ** (t + i) for t in range(L[(i + j) % 2])]) for i in range(N)] for j in range(N)]
        err, val = f(rirs, n)
        hs = [h for r in rirs for h in r]
        cut = [h for h in hs if len(h) > n]
        if not cut:
            S.check("nothing is cut off", not Ysym(err) and not Ysym(val) and err == -float("inf") and val == -float("inf"), "%s %s" % (err, val))
            return
        lg = S.np.log10
        es = [10 * lg(sum(v * v for v in h[n:]) / sum(v * v for v in h)) for h in cut]
        vs = [20 * lg(top(S, h[n:]) / top(S, h)) for h in cut]
        S.check("largest share of energy cut off", S.and_(S.or_(*[S.close(err, e) for e in es]), *[err >= e - 1e-6 for e in es]))
        S.check("largest sample cut off", S.and_(S.or_(*[S.close(val, e) for e in vs]), *[val >= e - 1e-6 for e in vs]))
    elif kind == "blocks":
        nm = case["nm"]
        log = R.install(S, lambda i, j: 2 if j % 2 else 3)
        ln = lambda i, j: 3          # the configured length cuts all to 2
        st = S.setup(**base())
        off = S.reals("off", (3,))
        probe = [0, 1, 250, 498, 499, 500, 501, 999, 1000, nm - 1]
        pm = S.array([[0.01 * j + (off[0] if j in probe else 0), 0.3 + (off[1] if j in probe else 0), ((7 * j) % 13) / 10] for j in range(nm)])
        src(st, S, "s", S.array([[off[2], 0.1, 0.2], [0.4, 0.5, off[2]]]))
        st.add_mics("m", pm)
        sim = st.create_simulator()
        p = sim.arrays.paths["s"]["m"]
        S.check("shape", p.shape == (2, nm, 2), str(p.shape))
        want = R.expected(S, st.sim_info, st.arrays["s"].pos, pm, 2, ln)
        S.eq("no microphone is mixed up between room computations", p, want)
    elif kind == "types":
        ns, nm = S.cint("ns", *case["ns"]), S.cint("nm", *case["nm"])
        log = R.install(S, lambda i, j: 3)
        names = [("s", "m"), ("s", "k"), ("q", "m")]
        default = S.choose("default", ["none", "direct", "random", "ism"])
        t = {}
        for a, b in names:
            v = S.choose("t_%s_%s" % (a, b), ["none", "direct", "random", "ism", None])
            eff = v or default
            ka, kb = (ns if a == "s" else 1), (nm if b == "m" else 1)
            S.assume(eff != "direct" or ka == kb)
            if v:
                t.setdefault(a, {})[b] = v
        S.assume(default != "direct" or True)
        st = S.setup(**dict(base(), reverb=default))
        src(st, S, "s", K.pos(ns, 0))
        src(st, S, "q", K.pos(1, 1), "ctrl")
        st.add_mics("m", K.pos(nm, 2))
        st.add_mics("k", K.pos(1, 3))
        st.arrays.set_path_types(t)
        sim = st.create_simulator()
        for a in ("s", "q"):
            for b in ("m", "k"):
                A, B = st.arrays[a], st.arrays[b]
                v = t.get(a, {}).get(b) or default
                p = sim.arrays.paths[a][b]
                S.check("type of the pair", sim.arrays.path_type[a][b] == v and sim.arrays.path_info[a + "->" + b]["type"] == v)
                S.check("shape of the pair", p.ndim == 3 and p.shape[:2] == (A.num, B.num), "%s %s" % (p.shape, v))
                if v == "none":
                    S.eq("no response", p, S.np.zeros(p.shape))
                elif v == "direct":
                    S.eq("each source element is heard at the microphone of the same number only", p, S.array([[[1.0 if i == j else 0.0] for j in range(B.num)] for i in range(A.num)]))
                elif v == "random":
                    S.check("random response has the configured length", p.shape[2] == 2)
                    S.check("random responses are distinct draws", len({str(x) for x in p.reshape(-1)}) == p.size)
                else:
                    S.eq("room response", p, R.expected(S, st.sim_info, A.pos, B.pos, 2))
        r = [str(x) for a in ("s", "q") for b in ("m", "k") if (t.get(a, {}).get(b) or default) == "random" for x in sim.arrays.paths[a][b].reshape(-1)]
        S.check("random responses of different pairs are distinct draws", len(set(r)) == len(r))
        # the setup itself keeps no paths: a second simulator is computed anew from the current arrays
        S.check("setup not modified", all(len(v) == 0 for v in st.arrays.paths.values()))
    elif kind == "user":
        ns, nm = S.cint("ns", *case["ns"]), S.cint("nm", *case["nm"])
        log = R.install(S, lambda i, j: 3)
        hp = R.highpass(S)
        cut = S.choose("cut", [0.0, 20.0])
        default = S.choose("default", ["none", "ism"])
        st = S.setup(**dict(base(), reverb=default, highpass_cutoff=cut))
        src(st, S, "s", K.pos(ns, 0))
        src(st, S, "q", K.pos(1, 1), "ctrl")
        st.add_mics("m", K.pos(nm, 2))
        typed = S.bool("typed")
        L = S.cint("L", 1, 4)
        u = S.reals("u", (ns, nm, L))
        how = S.choose("how", ["setup", "dict", "twice"])
        if typed:
            st.arrays.set_path_types(dict(s=dict(m="ism"), q=dict(m="none")))
        if how == "dict":
            st.arrays.set_prop_paths(dict(s=dict(m=u)))
        else:
            if how == "twice":
                st.set_path("s", "m", S.np.zeros((ns, nm, 1)))
            st.set_path("s", "m", u)
        u0 = u.copy()
        sim = st.create_simulator()
        S.eq("user path is used unchanged", sim.arrays.paths["s"]["m"], u0)
        S.check("user path marked", sim.arrays.path_info["s->m"]["type"] == "modified")
        n = 2
        if (typed and True) or default == "none":
            want = S.np.zeros((1, nm, 1))
        else:
            want = R.expected(S, st.sim_info, K.pos(1, 1), K.pos(nm, 2), n)
        if cut > 0:
            want = hp(want, 100, cut)
        S.eq("other pairs keep their type", sim.arrays.paths["q"]["m"], want)
        sim2 = st.create_simulator()
        S.eq("user path again", sim2.arrays.paths["s"]["m"], u0)
        S.eq("other pairs again", sim2.arrays.paths["q"]["m"], want)
    elif kind == "refuse":
        R.install(S)
        st = S.setup(**base())
        ns, nm = S.cint("ns", 1, 3), S.cint("nm", 1, 3)
        src(st, S, "s", K.pos(ns, 0))
        st.add_mics("m", K.pos(nm, 2))
        shp = (S.cint("a", 1, 3), S.cint("b", 1, 3), S.cint("L", 1, 2))
        r = S.raises(lambda: st.set_path("s", "m", S.np.zeros(shp)))
        S.check("a path of another shape is refused", (r is None) == (shp[:2] == (ns, nm)), "%s" % (shp,))
        S.check("a refused path is not set", ("m" in st.arrays.paths["s"]) == (r is None))
        S.check("unknown arrays are refused", S.raises(lambda: st.set_path("m", "s", S.np.zeros((nm, ns, 1)))) is not None
                and S.raises(lambda: st.set_path("s", "zzz", S.np.zeros((ns, nm, 1)))) is not None)
        st.arrays.set_path_types(dict(s=dict(m="direct")))
        if r is not None:
            e = S.raises(lambda: st.create_simulator())
            S.check("direct paths need equally many sources and microphones", (e is None) == (ns == nm))
