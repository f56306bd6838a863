"""C21: array collections and groups."""
from . import common as K

ID = "C21"
BOUNDS = "insertion sequences of up to 4 (quick) / 5 arrays of 4 kinds over 4 names (repetitions included), arrays of 1..3 groups of 1..3 elements, all positions symbolic; region arrays of 1-2 regions"
STUBS = "none"


def cases(tier):
    T = tier != "quick"
    return [dict(kind="insert", n=4 if not T else 5), dict(kind="groups", g=[1, 3], k=[1, 2 if not T else 3]), dict(kind="regions"),
            dict(kind="merge"), dict(kind="refuse"), dict(kind="signals"), dict(kind="subclass")]


def run(S, case):
    arr = S.mod("aspsim.array")
    kind = case["kind"]
    if kind == "insert":
        st = S.setup()
        model = []                    # (name, kind, num)
        for i in range(case["n"]):
            nm = "abcd"[S.cint("name%d" % i, 0, min(i, 3))]      # names up to renaming
            kd = S.choose("kind%d" % i, ["mic", "ctrl", "free"])
            num = 1 + (i + len(kd)) % 2
            p = S.reals("p%d" % i, (num, 3))
            if kd == "mic":
                f = lambda: st.add_mics(nm, p)
            elif kd == "ctrl":
                f = lambda: st.add_controllable_source(nm, p)
            else:
                f = lambda: st.add_free_source(nm, p, K.ListSource(S, S.array([[0.0]] * num)))
            e = S.raises(f)
            taken = nm in [m[0] for m in model]
            S.check("a name is accepted once", (e is not None) == taken)
            if not taken:
                model.append((nm, kd, num, p))
        C = st.arrays
        srcs = [m[0] for m in model if m[1] != "mic"]
        mics = [m[0] for m in model if m[1] == "mic"]
        S.check("all arrays, in order", [a.name for a in C] == [m[0] for m in model])
        S.check("sources", [a.name for a in C.sources()] == srcs)
        S.check("microphones", [a.name for a in C.mics()] == mics)
        S.check("free sources", [a.name for a in C.free_sources()] == [m[0] for m in model if m[1] == "free"])
        S.check("every pair once", [(a.name, b.name) for a, b in C.mic_src_combos()] == [(a, b) for a in srcs for b in mics])
        S.check("names", all((n in C) == (n in [m[0] for m in model]) for n in "abcdx") and C.empty() == (not model))
        for nm, kd, num, p in model:
            a = C[nm]
            S.check("role", (a.is_mic, a.is_source) == (kd == "mic", kd != "mic") and a.num == num and a.name == nm and not a.dynamic)
            S.check("metadata", a.metadata["number"] == num and a.metadata["number of groups"] == 1 and a.metadata["dynamic"] is False)
            S.eq("positions", a.pos, p)
        C.set_default_path_type("none")
        S.check("every pair has a type", all(C.path_type[a][b] == "none" for a in srcs for b in mics))
        if srcs and mics:
            sim = st.create_simulator()
            S.check("every pair has a path, once", [(a.name, b.name, q.shape) for a, b, q in sim.arrays.iter_paths()] == [(a, b, (C[a].num, C[b].num, 1)) for a in srcs for b in mics])
    elif kind == "subclass":
        # user-defined kinds of arrays take the role of the class they extend
        mk = lambda c: S.choose("sub_" + c.__name__, [c, type("My" + c.__name__, (c,), {})])
        F, C, M = mk(arr.FreeSourceArray), mk(arr.ControllableSourceArray), mk(arr.MicArray)
        st = S.setup(tot_samples=3, sim_chunk_size=4, sim_buffer=4, plot_output="none", reverb="direct", export_frequency=3)
        x = S.reals("x", (1, 8))
        st.add_array(F("f", K.pos(1), K.ListSource(S, x)))
        st.add_array(M("m", K.pos(1, 1)))
        st.add_array(C("c", K.pos(1, 2)))
        A = st.arrays
        S.check("roles of subclasses", [[a.name for a in g] for g in (A.sources(), A.mics(), A.free_sources())] == [["f", "c"], ["m"], ["f"]])
        sim = st.create_simulator()
        K.record(S, sim, [("m", 1), ("f", 1)])
        sim.run_simulation()
        S.eq("its samples are played and heard", sim.diag["rec_m"].get_output(), x[:, :3])
        S.eq("its samples are recorded", sim.diag["rec_f"].get_output(), x[:, :3])
    elif kind == "groups":
        g = S.cint("g", *case["g"])
        ks = [S.cint("k%d" % i, *case["k"]) for i in range(g)]
        ps = [S.reals("p%d" % i, (ks[i], 3)) for i in range(g)]
        given = S.choose("as", [list, tuple])(p.copy() for p in ps)
        cls = S.choose("cls", ["mic", "ctrl", "free"])
        n = sum(ks)
        a = arr.MicArray("m", given) if cls == "mic" else arr.ControllableSourceArray("m", given) if cls == "ctrl" else \
            arr.FreeSourceArray("m", given, K.ListSource(S, S.array([[0.0]] * n)))
        S.check("number of elements and groups", a.num == n and a.num_groups == g and len(a.group_idxs) == g and not a.dynamic)
        S.check("metadata", a.metadata["number"] == n and a.metadata["number of groups"] == g)
        allidx = []
        for i in range(g):
            ix = [int(j) for j in a.group_idxs[i]]
            allidx += ix
            S.eq("group holds the positions given for it", S.array([a.pos[j].tolist() for j in ix]), ps[i])
            S.eq("segment", a.pos_segments[i], ps[i])
        S.check("groups partition the elements", sorted(allidx) == list(range(n)))
        new = [[j for j in range(n) if j % 2 == q] for q in range(2)]
        a.set_groups(new)
        S.check("groups can be set", a.num_groups == 2 and [list(x) for x in a.group_idxs] == new)
    elif kind == "regions":
        reg = S.mod("aspsim.room.region")
        c = [S.real("c%d" % i, -2, 2) for i in range(3)]
        rs = [reg.Cuboid((1, 1, 0.5), (c[0], c[1], c[2]), (0.5, 0.5, 0.5)), reg.Rectangle((1.0, 0.5), (c[0] + 3, c[1], c[2]), (0.5, 0.5))]
        how = S.choose("how", ["one", "list1", "list2", "pos"])
        pts = [r.equally_spaced_points() for r in rs]
        if how == "one":
            a = arr.RegionArray("r", rs[0])
            want, segs = [pts[0]], [rs[0]]
        elif how == "list1":
            a = arr.RegionArray("r", [rs[1]])
            want, segs = [pts[1]], [rs[1]]
        elif how == "list2":
            a = arr.RegionArray("r", rs)
            want, segs = pts, rs
        else:
            q = S.reals("q", (2, 3))
            a = arr.RegionArray("r", rs[0], pos=q)
            want, segs = [q], [rs[0]]
        S.eq("positions", a.pos, S.np.concatenate(want, axis=0))
        S.check("is a microphone array", a.is_mic and not a.is_source and a.num == sum(len(w) for w in want))
        S.check("region segments", list(a.region_segments) == segs)
        if how == "list2":
            S.check("one group per region", a.num_groups == 2)
            S.check("combined region", type(a.region).__name__ == "CombinedRegion")
            for w, ix in zip(want, a.group_idxs):
                S.eq("group positions", S.array([a.pos[int(j)].tolist() for j in ix]), w)
        else:
            S.check("region", a.region is segs[0])
    elif kind == "merge":
        # arrays and path types of a collection are added to a setup
        col = arr.ArrayCollection()
        p = [S.reals("p%d" % i, (1, 3)) for i in range(4)]
        col.add_array(arr.MicArray("m", p[0]))
        col.add_array(arr.ControllableSourceArray("c", p[1]))
        t = S.choose("type", ["none", "direct", None])
        if t:
            col.set_path_types(dict(c=dict(m=t)))
        st = S.setup(reverb=S.choose("default", ["none", "direct"]))
        before = S.bool("before")
        add = lambda: st.add_free_source("f", p[2], K.ListSource(S, S.array([[0.0]])))
        if before:
            add()
        st.add_arrays(col)
        if not before:
            add()
        st.add_mics("n", p[3])
        S.check("all arrays present", [a.name for a in st.arrays] == (["f", "m", "c", "n"] if before else ["m", "c", "f", "n"]))
        for i, nm in enumerate("mcfn"):
            S.eq("positions", st.arrays[nm].pos, p[i])
        sim = st.create_simulator()
        S.check("path types", sim.arrays.path_type["c"]["m"] == (t or st.sim_info.reverb) and all(sim.arrays.path_type[a][b] == st.sim_info.reverb for a, b in (("c", "n"), ("f", "m"), ("f", "n"))))
    elif kind == "refuse":
        ns = S.cint("channels", 1, 3)
        npos = S.cint("elements", 1, 3)
        e = S.raises(lambda: arr.FreeSourceArray("f", K.pos(npos), K.ListSource(S, S.array([[0.0]] * ns))))
        S.check("a source needs one channel per element", (e is not None) == (ns != npos))
        e = S.raises(lambda: arr.MicArray("m", S.choose("bad", [None, "x", 3, [[0.0, 0, 0]], (1, 2, 3)])))
        S.check("other position types are refused", e is not None)
        d = S.choose("dir", [(None, None), (["omni"] * npos, None), (None, 1), (["omni"] * ns, 1), (["sharp"] * npos, 1), (["cardioid"] * npos, 1), (["omni"] * npos, 2)])
        x = S.real("x", -1.5, 1.5)
        dirs = None if d[1] is None else S.np.zeros((npos, 3))
        if dirs is not None:
            dirs[:, 0] = 1.0 if d[1] == 1 else x
        if d[1] == 2:
            S.assume(S.or_(x < -1.01, x > 1.01, S.and_(x > -0.99, x < 0.99), x == 1, x == -1))
        e = S.raises(lambda: arr.MicArray("m", K.pos(npos), directivity_type=d[0], directivity_dir=dirs))
        ok = d == (None, None) or (d[0] is not None and d[1] is not None and len(d[0]) == npos and d[0][0] != "sharp")
        if d[1] == 2:
            S.check("directions are unit vectors", (e is None) == bool(S.or_(x == 1, x == -1)))
        else:
            S.check("directivity: both or neither, one per element, known type", (e is None) == ok, "%s %s" % (d, e))
        st = S.setup()
        st.add_free_source("f", K.pos(ns), K.ListSource(S, S.array([[0.0]] * ns)))
        st.add_mics("m", K.pos(npos))
        size = (S.cint("p0", 1, 3), S.cint("p1", 1, 3))
        e = S.raises(lambda: st.set_path("f", "m", S.np.zeros(size + (2,))))
        S.check("a path has one response per source and microphone", (e is None) == (size == (ns, npos)))
    elif kind == "signals":
        # the simulation has one signal of the right shape per array, whatever the order
        order = S.choose("order", [["free", "ctrl", "mic"], ["mic", "ctrl", "free"], ["ctrl", "mic", "free"]])
        spec = dict(free=[("s", 2)], ctrl=[("c", 1)], mics=[("m", 1), ("e", 2)], ir=2, tot=2, chunk=S.cint("chunk", 2, 3), buf=S.cint("buf", 2, 4), contrib=S.bool("contrib"), order=order, bs=1)
        r = K.run_sim(S, spec)
        want = {"s": 2, "c": 1, "m": 1, "e": 2}
        if spec["contrib"]:
            want.update({"s~m": 1, "s~e": 2, "c~m": 1, "c~e": 2})
        sig = r["sim"].sig
        S.check("one signal per array", set(sig.keys()) == set(want))
        for k, v in want.items():
            S.check("shape", sig[k].shape == (v, spec["chunk"] + spec["buf"]), k)
        for m, nm in spec["mics"]:
            for t in range(2):
                w = [0.0] * nm
                for s, ns in spec["free"] + spec["ctrl"]:
                    sg = K.source_signal(S, spec, r["x"].get(s), s, ns, r["y"].get(s))
                    w = [a + b for a, b in zip(w, K.convolved(S, spec, sg, r["h"][s, m], ns, nm, t))]
                S.eq("insertion order does not matter", r["out"][m][:, t], S.array(w))
