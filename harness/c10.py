"""C10: paths of moving arrays follow the trajectory; all other paths stay fixed."""
from . import common as K
from . import room as R

ID = "C10"
BOUNDS = "runs of up to 5 (quick) / 8 samples, array update frequency 1..4, all chunk/buffer sizes in small ranges, up to 2 moving arrays of up to 2 elements plus static arrays and user paths; positions symbolic at every time with known source signals, and source signals symbolic with known positions; plus runs of 12 and 16 samples with 3 moving elements; a run of 110 samples with signals which are zero except at listed (symbolic) samples and 60 taps; array names which give the same strings for different pairs"
STUBS = "pyroomacoustics room (responses are a generic linear function of all positions and room parameters); user-supplied symbolic sources; symbolic trajectory tables"


def cases(tier):
    T = tier != "quick"
    b = dict(tot=[3, 5] if not T else [3, 8], chunk=[2, 4], buf=[2, 3], auf=[1, 4])
    return [
        dict(b, what="pos", mic=[("m", 1, "mov"), ("f", 1, "fix")], src=[("s", 1, "fix", "free")]),
        dict(b, what="pos", mic=[("m", 1, "fix")], src=[("s", 1, "mov", "free"), ("q", 1, "fix", "free")], pre="sym"),
        dict(b, what="pos", tot=[3, 4], mic=[("m", 1, "mov"), ("f", 1, "fix")], src=[("s", 1, "mov", "free"), ("q", 1, "fix", "free")], user=[("s", "f"), ("q", "m")], contrib="sym"),
        dict(b, what="pos", tot=[2, 4], mic=[("m", 2, "mov")], src=[("s", 2, "mov", "free")], chunk=[2, 3]),
        dict(b, what="sig", tot=[3, 5], mic=[("m", 1, "mov")], src=[("s", 1, "mov", "free"), ("q", 1, "fix", "free")], pre="sym"),
        dict(b, what="sig", tot=[4, 5], mic=[("m", 1, "mov")], src=[("c", 1, "mov", "ctrl"), ("s", 1, "fix", "free")], bs=[1, 2], buf=[3, 4]),
        dict(b, what="sig", tot=[3, 5], mic=[("m", 1, "mov"), ("f", 1, "fix")], src=[("c", 1, "fix", "ctrl"), ("s", 1, "mov", "free")], bs=1, buf=3, chunk=[2, 3]),
        dict(b, what="pos", tot=[2, 4], mic=[("m", 1, "mov")], src=[]),
        dict(b, what="pos", tot=16, auf=[3, 5], chunk=[6, 7], buf=5, mic=[("m", 3, "mov"), ("f", 2, "fix")], src=[("s", 1, "fix", "free")]),
        dict(b, what="sig", tot=12, auf=[3, 5], chunk=5, buf=6, mic=[("m", 1, "mov")], src=[("s", 2, "fix", "free")]),
        dict(b, what="pos", tot=[2, 4], mic=[("m", 1, "mov"), ("k", 1, "mov")], src=[("s", 1, "mov", "free")], types=dict(s=dict(k="direct")), chunk=3),
        dict(b, what="sig", ir=60, sparse=[0, 1, 40, 63, 64, 80], tot=110, auf=[31, 32], chunk=64, buf=33, mic=[("m", 1, "mov")], src=[("s", 1, "fix", "free")]),
        dict(b, what="pos", names=True, tot=2, auf=1, chunk=3, buf=2, mic=[(0, 1, "mov"), (1, 1, "fix")], src=[(0, 1, "fix", "free"), (1, 1, "fix", "free")], user=[(0, 1)]),
    ]


def run(S, case):
    if case.get("names"):
        ss, ms = K.names(S)
        case = dict(case, mic=[(ms[a[0]],) + a[1:] for a in case["mic"]], src=[(ss[a[0]],) + a[1:] for a in case["src"]], user=[(ss[a], ms[b]) for a, b in case["user"]])
    IR = case.get("ir", 2)
    spec = K.resolve(S, dict(case, ir=IR))
    for k in ("auf",):
        if isinstance(spec[k], list):
            spec[k] = S.cint(k, *spec[k])
    auf, tot = spec["auf"], spec["tot"]
    symx, sympos = spec["what"] == "sig", spec["what"] == "pos"
    log = R.install(S, lambda i, j: IR)
    tr = S.mod("aspsim.room.trajectory")
    st = S.setup(tot_samples=tot, sim_chunk_size=spec["chunk"], sim_buffer=spec["buf"], array_update_freq=auf,
                 start_sources_before_0=spec.get("pre", False), save_source_contributions=spec.get("contrib", False),
                 export_frequency=tot, plot_output="none", reverb="ism", rt60=0.25, max_room_ir_length=IR, samplerate=100,
                 room_size=[4, 5, 3], room_center=[0.5, -0.25, 1], c=343, randomized_ism=False, extra_delay=5, highpass_cutoff=-1)
    horizon = tot + (spec["bs"] or spec["buf"]) + 6
    n = horizon + spec["buf"] + 4
    table, x, y, h = {}, {}, {}, {}
    arrs = {}
    script = {}
    for i, (name, num, mov) in enumerate([(a[0], a[1], a[2]) for a in case["src"] + case["mic"]]):
        arrs[name] = (num, mov)
        if mov == "mov":
            if sympos:
                tab = S.reals("p_" + name, (horizon, num, 3))
            else:
                tab = S.array([[[0.1 * ((7 * t + 3 * d + i + 2 * e) % 11) - 0.4 for d in range(3)] for e in range(num)] for t in range(horizon)])
            table[name] = tab
            arrs[name] += (tr.Trajectory(lambda t, tab=tab: tab[t]),)
        else:
            arrs[name] += (K.pos(num, i),)
    for name, num, mov, kind in case["src"]:
        if kind == "free":
            x[name] = K.sparse(S, "x_" + name, (num, n), case["sparse"]) if "sparse" in case else S.reals("x_" + name, (num, n)) if symx else S.array([[((5 * t + 3 * c + len(x) * 2) % 13) / 7 - 0.9 for t in range(n)] for c in range(num)])
            st.add_free_source(name, arrs[name][2], K.ListSource(S, S.array(x[name])))
        else:
            st.add_controllable_source(name, arrs[name][2])
            y[name] = script[name] = S.reals("y_" + name, (num, tot + 2 * spec["bs"]))
    for name, num, mov in case["mic"]:
        st.add_mics(name, arrs[name][2])
    for s, m in case.get("user", ()):
        h[s, m] = S.array([[[0.7 - 0.2 * k + 0.1 * a + 0.05 * b for k in range(3)] for b in range(arrs[m][0])] for a in range(arrs[s][0])])
        st.set_path(s, m, h[s, m].copy())
    if case.get("types"):
        st.arrays.set_path_types(case["types"])
    sim = st.create_simulator()
    names = [(m, k) for m, k, _ in case["mic"]] + [(s, k) for s, k, _, kind in case["src"]]
    K.record(S, sim, names)
    if spec.get("contrib"):
        K.record(S, sim, [(s[0] + "~" + m[0], m[1]) for s in case["src"] for m in case["mic"]])
    if spec.get("bs"):
        sim.add_processor(K.processor(S, sim, spec["bs"], script))
    static0 = {(s[0], m[0]): sim.arrays.paths[s[0]][m[0]].copy() for s in case["src"] for m in case["mic"]}
    sim.run_simulation()
    cfg = st.sim_info

    def pos_at(name, t):
        return table[name][t] if name in table else arrs[name][2]

    def path(s, m, t):
        """response in force when sample t is produced"""
        if (s, m) in h:
            return h[s, m]
        ns, nm = arrs[s][0], arrs[m][0]
        if case.get("types", {}).get(s, {}).get(m) == "direct":
            return S.array([[[1.0 if a == b else 0.0] for b in range(nm)] for a in range(ns)])
        u = 0 if t <= 0 else ((t - 1) // auf) * auf
        return R.expected(S, cfg, pos_at(s, u), pos_at(m, u), IR)
    for s, ns, smov, kind in case["src"]:
        sg = K.source_signal(S, spec, x.get(s), s, ns, script.get(s))
        S.eq("source signal", sim.diag["rec_" + s].get_output(), S.array([[sg.get(t, [0.0] * ns)[c] for t in range(tot)] for c in range(ns)]), s)
    for m, nm, mmov in case["mic"]:
        for t in range(tot):
            want = [0.0] * nm
            for s, ns, smov, kind in case["src"]:
                sg = K.source_signal(S, spec, x.get(s), s, ns, script.get(s))
                w = K.convolved(S, spec, sg, path(s, m, t), ns, nm, t)
                if spec.get("contrib"):
                    S.eq("contribution uses the path in force", sim.diag["rec_" + s + "~" + m].get_output()[:, t], S.array(w))
                want = [a + b for a, b in zip(want, w)]
            S.eq("signal uses the paths in force", sim.diag["rec_" + m].get_output()[:, t], S.array(want), "mic %s t=%d auf=%d" % (m, t, auf))
    mults = [t for t in range(horizon) if t % auf == 0]
    # the run may go on for a few steps after the last sample
    many = [len(sim.arrays[a].time_all) for a in table]
    times = mults[:many[0]]
    S.check("refreshed until the end", all(k == many[0] for k in many) and many[0] >= len([t for t in mults if t < tot]))
    for s in case["src"]:
        for m in case["mic"]:
            p = sim.arrays.paths[s[0]][m[0]]
            if "mov" not in (s[2], m[2]) or (s[0], m[0]) in h:
                S.eq("fixed path unchanged", p, static0[s[0], m[0]])
            S.eq("final path", p, path(s[0], m[0], times[-1] + 1))
    for name, (num, mov, _) in arrs.items():
        a = sim.arrays[name]
        if mov == "mov":
            S.check("times of the recorded positions", list(a.time_all) == times, "%s %s" % (a.time_all, times))
            S.eq("recorded positions", S.array([p.tolist() for p in a.pos_all]), S.array([table[name][t].tolist() for t in times]))
            S.eq("current position", a.pos, table[name][times[-1]])
        else:
            S.eq("static array did not move", a.pos, S.array(arrs[name][2]))
