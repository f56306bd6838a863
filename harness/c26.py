"""C26: simulators created from one setup do not influence each other"""
import numpy as np
from . import common as K
from . import room as R

ID = "C26"
BOUNDS = "tot_samples <= 5 (quick) / 7, all sequences of 3 (quick) / 4 of 13 operations between creation and run; arrays on three kinds of trajectories of which points, centre, radius or period are changed; samples and paths symbolic; image-source paths of a moving array while another simulator with one changed setting is created and run"
STUBS = "pyroomacoustics room and highpass (generic functions of everything they are given) in the image-source case"

OPS = ["run A", "A config", "A path", "A source", "A diag", "A position", "setup config", "setup path", "setup array", "setup source", "user array", "user positions", "create C"]


def cases(tier):
    T = tier != "quick"
    base = dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 2)], ir=2, tot=4 + 2 * T, chunk=2, buf=[2, 4] if T else 3, bs=2, ops=3 + T)
    return [dict(base, first=o) for o in OPS] + [dict(base, first=o, moving=True, bs=0, buf=4) for o in ("run A", "A position", "setup config", "setup array", "create C")] + [
        dict(base, first="user positions", moving=m, bs=0, buf=4, ops=2 + T) for m in ("line", "times", "circle")] + [
        dict(kind="ism", tot=3, chunk=3, buf=4)]


def ism(S, case):
    """image-source paths of moving arrays, computed during the run, of two simulators with different settings"""
    ln = lambda i, j: 3
    R.install(S, ln)
    hp = R.highpass(S)
    first = dict(c=S.choose("c", [343.0, 340.0]), extra_delay=S.choose("ed", [1, 5]), rt60=S.choose("rt", [0.25, 0.0]), room_size=[4.0, 5.0, 3.0],
                 room_center=[0.5, -0.25, 1.0], samplerate=100, randomized_ism=False, highpass_cutoff=0.0, max_room_ir_length=2)
    st = S.setup(tot_samples=case["tot"], sim_chunk_size=case["chunk"], sim_buffer=case["buf"], export_frequency=case["tot"], plot_output="none",
                 array_update_freq=1, reverb="ism", **first)
    tab = S.reals("p", (12, 1, 3))
    q = K.pos(1, 0)
    st.add_free_source("s", q, K.ListSource(S, S.np.zeros((1, 40))))
    st.add_mics("m", S.mod("aspsim.room.trajectory").Trajectory(lambda t: tab[t]))
    st.add_mics("k", K.pos(1, 4))
    B = st.create_simulator()
    k = S.choose("what", ["c", "extra_delay", "rt60", "room_size", "room_center", "samplerate", "randomized_ism", "highpass_cutoff"])
    new = dict(c=S.real("c2", 300, 400), extra_delay=S.choose("ed2", [0, 7]), rt60=0.5, room_size=[S.real("z", 2, 9), 5.0, 3.0], room_center=[0.0, 0.0, 0.5],
               samplerate=120, randomized_ism=True, highpass_cutoff=20.0)
    setattr(st.sim_info, k, new[k])
    when = S.choose("when", ["before", "while"])
    def other():
        C = st.create_simulator()
        if S.bool("run C"):
            C.run_simulation()
    if when == "before":
        other()
    else:
        done = []
        orig = B.arrays["m"].update
        def update(t):
            if t == 1 and not done:
                done.append(1)
                other()
            return orig(t)
        B.arrays["m"].update = update
    B.run_simulation()
    cfg = type("C", (), first)
    last = B.n_tot - 1
    S.eq("path of the moving array belongs to the room of its own simulator", B.arrays.paths["s"]["m"], R.expected(S, cfg, q, tab[last], 2, ln), "%s %s" % (k, when))
    S.eq("path of the static array is unchanged", B.arrays.paths["s"]["k"], R.expected(S, cfg, q, K.pos(1, 4), 2, ln), "%s %s" % (k, when))


def run(S, case):
    if case.get("kind") == "ism":
        return ism(S, case)
    spec = K.resolve(S, case)
    tot, bs = spec["tot"], spec["bs"]
    arr = S.mod("aspsim.array")
    moving = case.get("moving")
    n = K.num_source_samples(spec) + 24
    st = S.setup(base=None, session=None, tot_samples=tot, sim_chunk_size=spec["chunk"], sim_buffer=spec["buf"], export_frequency=tot,
                 plot_output="none", array_update_freq=1)
    x = S.reals("x", (1, n))
    nm = 1 if moving else 2                 # a trajectory is one microphone
    hs, hc = S.reals("hs", (1, nm, 2)), S.reals("hc", (1, nm, 2))
    user_h, user_hc, user_x = S.array(hs), S.array(hc), S.array(x)
    user_pos = K.pos(2, 6).copy()
    src = K.ListSource(S, user_x)
    st.add_free_source("s", K.pos(1, 0), src)
    st.add_controllable_source("c", K.pos(1, 3))
    if moving:
        tr = S.mod("aspsim.room.trajectory")
        user_points, user_center, user_radius = np.array([[0.0, 1, 0], [2.0, 1, 0], [2.0, 3, 1], [0.0, 1, 0]]), [0.5, -1.0, 2.0], [0.5, 1.5]

        def trajectory(points=None, center=None, radius=None):
            if moving == "circle":
                return tr.CircularTrajectory(radius or [0.5, 1.5], center or [0.5, -1.0, 2.0], 8, 4, 1, start_angle=0.5)
            return tr.LinearTrajectory(np.array([[0.0, 1, 0], [2.0, 1, 0], [2.0, 3, 1], [0.0, 1, 0]]) if points is None else points, 4, 1,
                                       mode="constant_time" if moving == "times" else "constant_speed")
        st.add_mics("m", trajectory(user_points, user_center, user_radius))
    else:
        st.add_mics("m", user_pos)
    st.set_path("s", "m", user_h)
    st.set_path("c", "m", user_hc)
    A = st.create_simulator()
    B = st.create_simulator()
    y = S.reals("y", (1, tot + 2 * (bs or 1) + 2))
    made = {}

    def equip(sim):
        K.record(S, sim, [("m", nm), ("s", 1)] + ([("c", 1)] if bs else []))
        if bs:
            sim.add_processor(K.processor(S, sim, bs, {"c": y}))
    equip(A)
    equip(B)

    done = set()
    names = []
    for i in range(case["ops"]):
        op = case["first"] if i == 0 else S.choose("op%d" % i, [o for o in OPS if o not in done])
        done.add(op)
        names.append(op)
        if op == "run A":
            A.run_simulation()
        elif op == "A config":
            A.sim_info.tot_samples = tot + 3
            A.sim_info.sim_buffer = spec["buf"] + 5
            A.sim_info.sim_chunk_size = spec["chunk"] + 1
            A.sim_info.start_sources_before_0 = True
        elif op == "A path":
            A.arrays.paths["s"]["m"][...] = 0.5
            A.arrays.paths["c"]["m"] = S.array(hc * 3)
        elif op == "A source":
            A.arrays["s"].source.get_samples(1)
            A.arrays["s"].source.x[...] = 0.25
        elif op == "A diag":
            A.diag.add_diagnostic("extra", S.mod("aspsim.diagnostics.diagnostics").RecordSignal("s", A.sim_info))
            A.diag["rec_s"].signal[...] = 7.0
        elif op == "A position" and moving:
            A.arrays["m"].trajectory.current_pos(3)
            A.arrays["m"].time_all.append(99)
            A.arrays.update(0)
        elif op == "A position":
            A.arrays["m"].pos[...] = A.arrays["m"].pos + 1
        elif op == "setup config":
            st.sim_info.tot_samples = tot + 2
            st.sim_info.sim_buffer = spec["buf"] + 7
            st.sim_info.start_sources_before_0 = True
        elif op == "setup path":
            st.set_path("s", "m", S.array(hs * 2))
        elif op == "setup array":
            st.add_free_source("t", K.pos(1, 2), K.ListSource(S, S.array(x)))
        elif op == "setup source":
            st.arrays["s"].source.get_samples(2)
            st.arrays["s"].num = 1
        elif op == "user array":
            user_h[...] = 0.125
            user_x[...] = 0.5
        elif op == "user positions":
            if moving:
                user_points *= 3
                user_center[0] = user_radius[1] = 7.0
                for T in (st.arrays["m"].trajectory, A.arrays["m"].trajectory):
                    for attr in ("anchor_points", "samples_per_segment", "cumulative_samples"):
                        if isinstance(getattr(T, attr, None), np.ndarray):
                            getattr(T, attr)[...] = 0.25
                    if moving == "circle":
                        T.start_angle, T.radius_diff = 1.25, 0.75
                continue
            user_pos[...] = 3.0
            st.arrays["m"].pos[...] = 4.0
        elif op == "create C":
            made["C"] = st.create_simulator()
            made["C"].sim_info.tot_samples = tot + 1
            made["C"].arrays.paths["s"]["m"][...] = 0.75
            if bs:
                equip(made["C"])
            made["C"].run_simulation()
    pos0 = B.arrays["m"].pos
    B.run_simulation()
    S.check("the other simulator keeps its diagnostics", sorted(n_ for n_, _ in B.diag.items()) == (["rec_c", "rec_m", "rec_s"] if bs else ["rec_m", "rec_s"]))
    S.check("the other simulator keeps its arrays", sorted(a.name for a in B.arrays) == ["c", "m", "s"])
    S.check("the other simulator keeps its length", B.sim_info.tot_samples == tot)
    if moving:
        times = list(range(B.n_tot))
        S.check("the other simulator keeps the times of its own positions", [int(t) for t in B.arrays["m"].time_all] == times, str(names))
        S.eq("the other simulator keeps its trajectory", B.arrays["m"].pos, trajectory().current_pos(times[-1]), str(names))
    else:
        S.eq("the other simulator keeps its positions", pos0, S.array(K.pos(2, 6)), str(names))
    sp = dict(spec, pre=False)
    sx = K.source_signal(S, sp, x, "s", 1)
    parts = [(sx, hs, 1)]
    if bs:
        parts.append((K.source_signal(S, sp, None, "c", 1, y), hc, 1))
    ms = [[K.convolved(S, sp, g, H, ns, nm, t) for t in range(tot)] for g, H, ns in parts]
    mic = [[sum((p[t][m] for p in ms), 0.0) for t in range(tot)] for m in range(nm)]
    S.eq("signals as if created alone", B.diag["rec_m"].get_output(), mic, str(names))
    S.eq("source signal as if created alone", B.diag["rec_s"].get_output(), x[:, :tot], str(names))
