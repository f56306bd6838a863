"""C19: stored paths are reused exactly when nothing that determines them differs."""
import numpy as np
from . import common as K
from . import room as R

ID = "C19"
BOUNDS = ("stored and current setups that differ by arbitrary amounts in every path-relevant configuration value, array positions, user path values, "
          "or in one of 17 structural ways; up to 5 setups in sequence on one session folder; directivities; loaded sessions with moving arrays; array names which give the same strings for different pairs; path types ism, direct, none, random and user")
STUBS = "pyroomacoustics room and highpass (generic linear functions of everything they are given), dill (and yaml, for symbolic values) replaced by in-memory copies; replays use real yaml"

FIELDS = ["samplerate", "c", "rt60", "room_size", "room_center", "randomized_ism", "extra_delay", "highpass_cutoff", "max_room_ir_length"]
STRUCT = ["same", "extra_mic", "extra_src", "name", "type", "count", "ptype", "user_added", "user_removed", "user_len", "user_val",
          "irrelevant", "current_objects", "reverb", "order", "fewer_mic", "fewer_src"]


def cases(tier):
    out = [dict(kind="config", types="ism")]
    out += [dict(kind="config", types=t, fields=f) for t, f in (("random", ["max_room_ir_length", "highpass_cutoff", "samplerate", "c"]), ("mixed", ["rt60", "room_center", "c"]),
                                                               ("late", ["room_size", "extra_delay"]), ("lately", ["max_room_ir_length", "rt60"]))]
    out += [dict(kind="seq", fields=[f]) for f in (FIELDS if tier != "quick" else ["rt60", "c", "max_room_ir_length"])]
    out += [dict(kind="pos"), dict(kind="struct", which=STRUCT[:6]), dict(kind="struct", which=STRUCT[6:11]), dict(kind="struct", which=STRUCT[11:]),
            dict(kind="default"), dict(kind="load"), dict(kind="off"), dict(kind="names"), dict(kind="directivity"), dict(kind="many")]
    if tier != "quick":
        out += [dict(kind="seq", fields=FIELDS[:4]), dict(kind="seq", fields=FIELDS[4:]), dict(kind="config", types="mixed")]
    return out


def base_cfg():
    return dict(samplerate=100, c=343.0, rt60=0.25, room_size=[4.0, 5.0, 3.0], room_center=[0.5, -0.25, 1.0], randomized_ism=False,
                extra_delay=12, highpass_cutoff=0.0, max_room_ir_length=2)


def delta(S, name, lo=0.01, hi=1.0, signed=False):
    """zero or a relevant difference"""
    d = S.real(name, -hi if signed else 0, hi)
    S.assume(S.or_(d == 0, d >= lo, d <= -lo))
    return d


def vary(S, cfg, fields, tag):
    """cfg with arbitrary differences in the given fields; returns (new cfg, list of difference symbols)"""
    c, ds = dict(cfg), []
    for f in fields:
        n = "%s_%s" % (tag, f)
        if f in ("samplerate", "extra_delay"):
            d = S.int(n, 0, 3)
            c[f] = cfg[f] + d
        elif f == "randomized_ism":
            d = S.bool(n)
            c[f] = cfg[f] ^ d
        elif f == "max_room_ir_length":
            d = S.cint(n, 0, 1)
            c[f] = cfg[f] + d
        elif f in ("room_size", "room_center"):
            dd = [delta(S, n + str(i), signed=True) for i in range(3)]
            c[f] = [a + b for a, b in zip(cfg[f], dd)]
            ds += dd
            continue
        else:
            d = delta(S, n)
            c[f] = cfg[f] + d
        ds.append(d)
    return c, ds


def make(S, folder, cfg, p=None, types=None, user=None, srcs=(("s", 1), ("q", 1)), mics=(("m", 2), ("k", 1)), cls=None, extra=None, auto=True, x=0.5, default="ism"):
    kw = dict(tot_samples=4, sim_chunk_size=4, sim_buffer=4, plot_output="none", reverb=default, auto_save_load=auto)
    kw.update(cfg)
    kw.update(extra or {})
    st = S.setup(session=folder, **kw)
    p = p or {}
    cls = cls or {}
    arr = S.mod("aspsim.array")
    for i, (n, k) in enumerate(srcs):
        pos = p.get(n, K.pos(k, i))
        if cls.get(n) == "ctrl":
            st.add_controllable_source(n, pos)
        else:
            st.add_free_source(n, pos, K.ListSource(S, S.array([[x * (t + 1) for t in range(20)] for _ in range(k)])))
    for i, (n, k) in enumerate(mics):
        pos = p.get(n, K.pos(k, 5 + i))
        if cls.get(n) == "region":
            reg = S.mod("aspsim.room.region")
            st.add_array(arr.RegionArray(n, reg.Rectangle((1, 1), (0, 0, 0), (1, 1)), pos))
        else:
            st.add_mics(n, pos)
    if types:
        st.arrays.set_path_types(types)
    for (a, b), h in (user or {}).items():
        st.set_path(a, b, h)
    return st


def fresh(S, st, log, hp, s, m, user=None, random=None):
    """the path the current setup would compute itself (None: random)"""
    cfg = st.sim_info
    if user and (s, m) in user:
        return user[s, m]
    t = st.arrays.path_type[s].get(m, cfg.reverb)
    A, B = st.arrays[s], st.arrays[m]
    if t == "none":
        h = S.np.zeros((A.num, B.num, 1))
    elif t == "direct":
        h = S.np.eye(A.num, B.num)[..., None]
    elif t == "random":
        return None
    else:
        h = R.expected(S, cfg, A.pos, B.pos, cfg.max_room_ir_length)
    # forks on the sign, as the setup does
    return hp(h, cfg.samplerate, cfg.highpass_cutoff) if cfg.highpass_cutoff > 0 else h


def check_paths(S, st, sim, log, hp, user=None, what=""):
    names_s, names_m = st.arrays.names_src, st.arrays.names_mic
    for s in names_s:
        for m in names_m:
            want = fresh(S, st, log, hp, s, m, user)
            got = sim.arrays.paths[s][m]
            if want is None:
                S.check("random path has the configured length", got.shape == (st.arrays[s].num, st.arrays[m].num, st.sim_info.max_room_ir_length), what)
            else:
                S.eq("paths equal what the setup itself determines", got, want, "%s %s->%s" % (what, s, m))


def run(S, case):
    log = R.install(S, lambda i, j: 3)
    hp = R.highpass(S)
    R.storage(S)
    folder = S.scratch() / "sessions"
    folder.mkdir()
    kind = case["kind"]
    types = {"ism": None, None: None,
             "random": dict(s=dict(m="random", k="none"), q=dict(m="direct", k="random")),
             "late": dict(s=dict(m="none", k="ism"), q=dict(m="none", k="direct")),
             "lately": dict(s=dict(m="none", k="direct"), q=dict(m="none", k="random")),
             "mixed": dict(s=dict(m="ism", k="none"), q=dict(m="none", k="direct"))}
    tp = types[case.get("types")]
    mics = (("m", 2), ("k", 1))
    srcs = (("s", 1), ("q", 1 if case.get("types") != "random" else 2))
    mk = lambda cfg, **kw: make(S, folder, cfg, **dict(dict(types=tp, srcs=srcs, mics=mics), **kw))
    c0 = base_cfg()

    def sessions():
        return len([d for d in folder.iterdir() if d.is_dir()])

    if kind == "config":
        st1 = mk(c0)
        sim1 = st1.create_simulator()
        check_paths(S, st1, sim1, log, hp, what="first")
        S.check("one session stored", sessions() == 1)
        c1, ds = vary(S, c0, case.get("fields", FIELDS), "d")
        n = len(log.rooms)
        st2 = mk(c1)
        sim2 = st2.create_simulator()
        check_paths(S, st2, sim2, log, hp, what="second")
        reused = sessions() == 1
        if S.holds(S.and_(*[d == 0 for d in ds])):
            S.check("identical setup reuses the stored paths", reused and len(log.rooms) == n)
            for s, _ in srcs:
                for m, _ in mics:
                    S.eq("reused paths are the stored ones", sim2.arrays.paths[s][m], sim1.arrays.paths[s][m])
        for f in FIELDS:
            S.check("configuration is the current one", getattr(sim2.sim_info, f) == c1[f], f)
    elif kind == "seq":
        c1, ds = vary(S, c0, case["fields"], "d")
        S.assume(S.or_(*[d != 0 for d in ds]))
        seen = []
        stored = {}
        for i in range(4):
            w = S.choose("setup%d" % i, ["A", "B"])
            n = len(log.rooms)
            st = mk(c0 if w == "A" else c1)
            sim = st.create_simulator()
            check_paths(S, st, sim, log, hp, what="%d:%s" % (i, w))
            if w in seen:
                S.check("stored by an earlier simulation: reused", len(log.rooms) == n and sessions() == len(set(seen)))
            else:
                seen.append(w)
                S.check("new setup is stored", sessions() == len(seen))
    elif kind == "many":
        f = S.choose("field", ["room_center", "rt60", "c"])
        for i, w in enumerate(["A", "B", "C", "D", S.choose("again", ["A", "B", "C", "D"])]):
            n = len(log.rooms)
            k = 0.125 * (ord(w) - 65)
            st = mk(dict(c0, **{f: [a + k for a in c0[f]] if isinstance(c0[f], list) else c0[f] + k}))
            sim = st.create_simulator()
            check_paths(S, st, sim, log, hp, what=w)
            S.check("one session for each setup", sessions() == min(i + 1, 4))
            S.check("only new setups are computed", (len(log.rooms) == n) == (i == 4))
    elif kind == "pos":
        p0 = {"s": S.reals("ps", (1, 3)), "m": S.reals("pm", (2, 3))}
        st1 = mk(c0, p=p0)
        st1.create_simulator()
        d = [delta(S, "d%d" % i, signed=i != 4) for i in range(9)]
        p1 = {"s": S.array([[p0["s"][0, j] + d[j] for j in range(3)]]),
              "m": S.array([[p0["m"][i, j] - d[3 + 3 * i + j] for j in range(3)] for i in range(2)])}
        n = len(log.rooms)
        st2 = mk(c0, p=p1)
        sim2 = st2.create_simulator()
        check_paths(S, st2, sim2, log, hp)
        S.eq("positions are the current ones", sim2.arrays["m"].pos, p1["m"])
        if S.holds(S.and_(*[x == 0 for x in d])):
            S.check("equal positions reuse the stored paths", len(log.rooms) == n and sessions() == 1)
    elif kind == "struct":
        u = S.reals("u", (1, 2, 2))
        w = S.choose("change", case["which"])
        user = {("q", "m"): u}
        tr = S.mod("aspsim.room.trajectory")
        kw1 = dict(user=user)
        kw2 = dict(user=dict(user))
        if w == "current_objects":
            kw1["p"] = {"k": tr.Trajectory(lambda t: S.array([[0.1 + 0.2 * t, 0.3, 0.4]]))}
            kw2["p"] = {"k": tr.Trajectory(lambda t: S.array([[0.1 - 0.7 * t, 0.3, 0.4 + t]]))}
            kw2["x"] = 0.75
        if w == "user_removed":
            kw2["user"] = {}
        if w == "user_len":
            kw2["user"] = {("q", "m"): S.reals("v", (1, 2, 3))}
        if w == "user_val":
            d = delta(S, "d", 0.01)
            i = S.cint("at", 0, 3)
            v = u.copy()
            v[0, i // 2, i % 2] = u[0, i // 2, i % 2] + d
            if S.bool("moved"):      # between two samples or microphones
                i = (i + S.cint("to", 1, 3)) % 4
                v[0, i // 2, i % 2] = u[0, i // 2, i % 2] - d
            kw2["user"] = {("q", "m"): v}
        if w == "user_added":
            kw2["user"][("s", "k")] = S.reals("v", (1, 1, 2))
        if w == "extra_mic":
            kw2["mics"] = mics + (("z", 1),)
        if w == "extra_src":
            kw2["srcs"] = srcs + (("z", 1),)
        if w == "fewer_mic":
            kw1["mics"] = mics + (("z", 1),)
        if w == "fewer_src":
            kw1["srcs"] = srcs + (("z", 1),)
        if w == "name":
            kw2["mics"] = (("m", 2), ("z", 1))
        if w == "count":
            kw2["mics"] = (("m", 2), ("k", 2))
        if w == "type":
            kw2["cls"] = S.choose("cls", [{"s": "ctrl"}, {"k": "region"}])
        if w == "ptype":
            kw2["types"] = S.choose("pt", [dict(s=dict(k="none")), dict(s=dict(k="direct")), dict(q=dict(k="none"))])
        if w == "reverb":
            kw2["default"] = "none"
        if w == "order":
            kw2["mics"] = tuple(reversed(mics))
        c1 = dict(c0)
        if w == "irrelevant":
            kw2["extra"] = dict(tot_samples=S.cint("tot", 4, 5), sim_chunk_size=S.cint("ch", 4, 5), sim_buffer=5, export_frequency=7,
                                array_update_freq=3, output_smoothing=2, save_source_contributions=True, start_sources_before_0=True)
        sim1 = mk(c0, **kw1).create_simulator()
        n = len(log.rooms)
        st2 = mk(c1, **kw2)
        if w == "current_objects":
            st2.arrays["m"].set_groups([[1], [0]])
        sim2 = st2.create_simulator()
        check_paths(S, st2, sim2, log, hp, user=kw2["user"], what=w)
        S.check("arrays are the current ones", list(sim2.arrays.arrays.keys()) == list(st2.arrays.arrays.keys()), w)
        if w in ("same", "irrelevant", "current_objects") or (w == "user_val" and S.holds(d == 0)):
            S.check("nothing relevant differs: reused", len(log.rooms) == n and sessions() == 1, w)
        for a in st2.arrays:
            b = sim2.arrays[a.name]
            S.check("array kind is the current one", type(b) is type(a) and b.num == a.num, w)
            S.eq("array positions", b.pos, S.array(a.pos))
        if w == "irrelevant":
            S.check("settings are the current ones", all(getattr(sim2.sim_info, k) == v for k, v in kw2["extra"].items()))
        if w == "current_objects":
            S.check("groups are the current ones", [list(g) for g in sim2.arrays["m"].group_idxs] == [[1], [0]] and sim2.arrays["m"].num_groups == 2)
            S.eq("sources are the current ones", sim2.arrays["s"].source.x, st2.arrays["s"].source.x)
            rec = K.record(S, sim2, [("k", 1), ("s", 1)])
            sim2.run_simulation()
            S.eq("the run plays the current source", sim2.diag["rec_s"].get_output(), S.array([[0.75 * (t + 1) for t in range(4)]]))
            S.eq("the run follows the current trajectory", sim2.arrays["k"].pos_all[2], S.array([[0.1 - 1.4, 0.3, 2.4]]))
    elif kind == "load":
        u = S.reals("u", (1, 2, 2))
        p0 = {"s": S.reals("ps", (1, 3))}
        tp = dict(q=dict(k="none"))
        tr = S.mod("aspsim.room.trajectory")
        moving = S.choose("moving", ["", "k", "q", "qk"])
        v = S.real("v", 0, 0.2)
        if "k" in moving:
            p0["k"] = tr.Trajectory(lambda t: S.array([[0.1 + v * t, 0.3, 0.4]]))
        if "q" in moving:
            p0["q"] = tr.Trajectory(lambda t: S.array([[0.2, 0.5 - v * t, 0.1]]))
        st1 = mk(c0, p=p0, user={("q", "m"): u}, types=tp)
        sim1 = st1.create_simulator()
        path = [d for d in folder.iterdir() if d.is_dir()][0]
        st2 = S.setup(base=None, session=S.choose("again", [None, folder]), plot_output="none")
        st2.load_from_path(path)
        n = len(log.rooms)
        for f in list(c0) + ["tot_samples", "sim_chunk_size", "sim_buffer", "reverb"]:
            S.check("loaded configuration", getattr(st2.sim_info, f) == getattr(st1.sim_info, f), f)
        sim2 = st2.create_simulator()
        for s, _ in srcs:
            for m, _ in mics:
                if s in moving or m in moving:         # (loaded paths of static arrays count as set by the user)
                    S.check("loaded paths of moving arrays are of the stored types", sim2.arrays.path_type[s][m] == sim1.arrays.path_type[s][m], "%s->%s %s" % (s, m, moving))
                S.eq("loaded paths equal the stored ones", sim2.arrays.paths[s][m], sim1.arrays.paths[s][m])
        S.eq("loaded positions", sim2.arrays["s"].pos, p0["s"])
        S.check("nothing recomputed", moving or len(log.rooms) == n)
        sims = []
        for sm in (sim1, sim2):
            K.record(S, sm, [("m", 2), ("k", 1)])
            sm.run_simulation()
        for m in ("m", "k"):
            S.eq("same signals from the loaded setup", sim2.diag["rec_" + m].get_output(), sim1.diag["rec_" + m].get_output())
    elif kind == "names":
        ss, ms = K.names(S)
        one = dict(srcs=[(n, 1) for n in ss], mics=[(n, 1) for n in ms], types={ss[0]: {ms[1]: "direct"}, ss[1]: {ms[0]: "none"}})
        i, j = S.cint("i", 0, 1), S.cint("j", 0, 1)
        d = delta(S, "d")
        u = S.reals("u", (1, 1, 2))
        st1 = mk(c0, user={(ss[i], ms[j]): u}, **one)
        sim1 = st1.create_simulator()
        check_paths(S, st1, sim1, log, hp, user={(ss[i], ms[j]): u}, what="first")
        user = {(ss[i], ms[j]): u + d}
        st2 = mk(c0, user=user, **one)
        sim2 = st2.create_simulator()
        check_paths(S, st2, sim2, log, hp, user=user, what="second")
        S.check("reused exactly when the path is the same", sessions() == (1 if S.holds(d == 0) else 2))
    elif kind == "directivity":
        # a path of directional microphones is not that of omnidirectional ones (refused, or computed)
        kinds = ["omni", "cardioid", "bidirectional"]
        dirs = [[1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]
        ar = S.mod("aspsim.array")

        def directed(cfg):
            st = mk(cfg, mics=(("m", 2),), types=dict(s=dict(m="none")) if none else None)
            k = [S.choose("t%d%d" % (len(log.rooms), i), kinds) for i in range(2)]
            st.add_array(ar.MicArray("z", K.pos(2, 7), directivity_type=k, directivity_dir=np.array([dirs[0], S.choose("d", dirs)])))
            return k, st
        none = S.bool("none")
        st1 = mk(c0, mics=(("m", 2), ("z", 2)), p={"z": K.pos(2, 7)}, types=dict(s=dict(m="none")) if none else None)
        st1.create_simulator()
        n = len(log.rooms)
        k, st2 = directed(c0)
        try:
            st2.create_simulator()
        except NotImplementedError:
            S.check("omnidirectional microphones are supported", k != ["omni", "omni"])
        else:
            if k == ["omni", "omni"]:
                S.check("equal directivity reuses the stored paths", len(log.rooms) == n and sessions() == 1)
            else:
                S.check("paths of directional microphones are not those of omnidirectional ones", len(log.rooms) > n)
    elif kind == "default":
        a = S.choose("default", ["none", "direct", "random", "ism"])
        b = S.choose("default2", ["none", "direct", "random", "ism"])
        one = dict(mics=(("m", 1),), srcs=(("s", 1),))
        st1 = mk(c0, default=a, **one)
        sim1 = st1.create_simulator()
        st2 = mk(c0, default=b, **one)
        sim2 = st2.create_simulator()
        check_paths(S, st2, sim2, log, hp)
        S.check("reused exactly when the type is the same", sessions() == (1 if a == b else 2))
        if a == b:
            S.eq("reused", sim2.arrays.paths["s"]["m"], sim1.arrays.paths["s"]["m"])
    elif kind == "off":
        c1, ds = vary(S, c0, ["rt60", "c"], "d")
        nofolder = S.bool("nofolder")
        mk(c0, auto=not S.bool("first_off")).create_simulator()
        k = sessions()
        n = len(log.rooms)
        st = make(S, None if nofolder else folder, c1, srcs=srcs, mics=mics, auto=nofolder)
        sim = st.create_simulator()
        check_paths(S, st, sim, log, hp)
        S.check("automatic saving is off: nothing stored, nothing loaded", sessions() == k and len(log.rooms) > n)
