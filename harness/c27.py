"""C27: state and instantaneous diagnostics sample the processor's state at their own times."""
from . import common as K

ID = "C27"
BOUNDS = "tot_samples <= 9 (quick) / 14, save frequency 1..tot, block size <= 3 / 4, chunk/buffer in range; plus runs of 40-60 samples with block sizes 3-8 and listed frequencies; state entries symbolic"
STUBS = "np.savez_compressed remembers its arguments"


def cases(tier):
    T = tier != "quick"
    n = 8 if not T else 13
    base = dict(free=[("s", 1)], mics=[("m", 1)], ir=1, out="pdf", exp=[2, n])
    return [
        dict(base, tot=[3, n], chunk=[2, 4 + T], buf=[2, 4], bs=[1, 3], kind="any"),
        dict(base, tot=n, exp=3, chunk=[2, 4 + T], buf=6, bs=[2, 3 + T], kind="state", dim=1),
        dict(base, tot=n, exp=3, chunk=[2, 4 + T], buf=6, bs=[2, 3], kind="state", dim=2),
        dict(base, tot=n, exp=3, chunk=[2, 4 + T], buf=6, bs=[2, 3], kind="state", dim=(2, 3)),
        dict(base, tot=n, exp=3, chunk=[3, 4 + T], buf=6, bs=[2, 3], kind="live"),
        dict(base, tot=n, exp=3, chunk=[3, 4 + T], buf=6, bs=2, kind="list"),
        # longer runs
        dict(base, tot=50, exp=[14, 15], chunk=[10, 11], buf=12, bs=5, kind="state", dim=3),
        dict(base, tot=60, exp=[20, 21], chunk=16, buf=16, bs=[3, 8], kind="live"),
        dict(base, tot=40, exp=10, chunk=9, buf=16, bs=7, kind="list"),
        dict(base, tot=40, exp=9, chunk=[9, 10], buf=16, bs=[3, 6], kind="any", fs=[1, 5, 6, 7, 10, 18, 39, 40, 41]),
    ]


def size(dim):
    return (dim,) if isinstance(dim, int) else dim


def run(S, case):
    spec = K.resolve(S, case)
    tot, kind, bs = spec["tot"], case["kind"], spec["bs"]
    dia = S.mod("aspsim.diagnostics.diagnostics")
    st, x, h = K.build(S, spec, base=S.scratch())
    sim = st.create_simulator()
    si = sim.sim_info
    proc = K.processor(S, sim, bs)
    dim = case.get("dim", 2)
    nb = tot // bs + 2
    V = S.reals("V", (nb,) + size(dim))

    class Box:
        pass
    box = Box()
    box.values = [S.array(V[0] * 0), {"k": S.array(V[0] * 0)}]
    proc.box = box
    proc.step = 0.0

    def process(num, orig=proc.process):
        orig(num)
        j = len(proc.calls) - 1
        proc.step = proc.step + 1.0
        # the state is changed in place, as adaptive filters do
        proc.box.values[0][...] = S.array(V[j])
        proc.box.values[1]["k"][...] = S.array(V[j]) * 2
    proc.process = process
    sim.add_processor(proc)
    if kind == "any":
        # any save frequency: one value per multiple, each taken while exactly that many (or one more) samples passed
        f = S.choose("f", case["fs"]) if "fs" in case else S.cint("f", 1, case["tot"][1] + 1)
        S.assume(f <= tot + 1)
        sim.diag.add_diagnostic("st", dia.RecordState("step", 1, si, save_frequency=f, export_func="npz"))
        sim.run_simulation()
        d = sim.diag["st"]
        times = list(range(f, tot + 1, f))
        out = d.get_output()
        S.check("room for every value", out.shape[0] == 1 and out.shape[1] >= len(times), str(out.shape))
        for i, k in enumerate(times):
            v = out[0, i]
            S.check("time index is the last sample that had passed", S.and_(d.time_indices[i] == k - 1), "i=%d" % i)
            if bs > 1 and f % bs == 0:
                S.check("state after exactly the blocks that had passed", S.and_(v == float(k // bs)), "i=%d" % i)
            else:
                S.check("state of that time", S.and_(v >= float(k // bs), v <= float((k + 1) // bs)), "i=%d %s" % (i, v))
        for i in range(len(times), out.shape[1]):
            S.check("no value beyond the simulation", S.is_nan(out[0, i]), "i=%d" % i)
        ex = spec["exp"]
        files = S.exports(sim.folder_path)
        S.check("export points", set(files) == set("st_%d.npz" % k for k in range(ex, tot + 1, ex)), str(sorted(files)))
        for fn, c in files.items():
            k = int(fn[3:-4])
            m = len([g for g in times if g - 1 < k])
            S.check("exported values", tuple(c["st"].shape) == (1, m), "%s %s" % (fn, c["st"].shape))
            if m:
                S.eq("exported values are the first ones", c["st"][0], out[0, :m], fn)
        return
    f = bs * S.cint("f", 1, 2 if tot > 6 else 1)
    times = list(range(f, tot + 1, f))
    if kind == "state":
        path = S.choose("path", ["box.values[0]", "box.values[1]['k']", "box.values[-1]['k']"])
        gain = 1.0 if path.endswith("[0]") else 2.0
        sim.diag.add_diagnostic("st", dia.RecordState(path, dim, si, save_frequency=f, export_func="npz"))
        sim.run_simulation()
        d = sim.diag["st"]
        out = d.get_output()
        S.check("shape", tuple(out.shape)[:-1] == size(dim) and out.shape[-1] >= len(times), str(out.shape))
        for i, k in enumerate(times):
            S.eq("value i is the state when its time was reached", out[..., i], V[k // bs - 1] * gain, "i=%d" % i)
            S.check("time index is the last sample that had passed", S.and_(d.time_indices[i] == k - 1), "i=%d" % i)
        for fn, c in S.exports(sim.folder_path).items():
            k = int(fn[3:-4])
            m = [g for g in times if g - 1 < k]
            S.check("exported shape", tuple(c["st"].shape) == (1,) * (1 if dim == 0 else 0) + size(dim) + (len(m),), "%s %s" % (fn, c["st"].shape))
            for i, g in enumerate(m):
                S.eq("exported value", c["st"][..., i], V[g // bs - 1] * gain, fn)
    elif kind == "live":
        sim.diag.add_diagnostic("one", dia.RecordFilter("box.values[0]", si, save_at=f, export_func="npz"))
        sim.diag.add_diagnostic("all", dia.RecordFilter("box", si, save_at=f, export_func="npz"))
        sim.diag.add_diagnostic("lst", dia.RecordFilter("box.values", si, save_at=f, export_func="npz"))
        for n in ("all", "lst"):
            sim.diag[n].export_function = []
        sim.run_simulation()
        if times:
            last = V[times[-1] // bs - 1]
            S.eq("value of the latest save point", sim.diag["one"].get_output(), last)
            S.eq("value of the latest save point (whole object)", sim.diag["all"].get_output().values[0], last)
            S.eq("value of the latest save point (nested)", sim.diag["lst"].get_output()[1]["k"], last * 2)
            proc.box.values[0][...] = proc.box.values[0] + 1
            proc.box.values[1]["k"][...] = proc.box.values[0] + 1
            S.eq("later changes of the live object do not show", sim.diag["one"].get_output(), last)
            S.eq("later changes of the live object do not show (object)", sim.diag["all"].get_output().values[0], last)
            S.eq("later changes of the live object do not show (nested)", sim.diag["lst"].get_output()[1]["k"], last * 2)
        else:
            S.check("nothing before the first save point", sim.diag["one"].get_output() is None)
    else:
        # explicit save points of an instantaneous diagnostic
        a, b = bs * S.cint("ka", 1, tot // bs), bs * S.cint("kb", 1, tot // bs)
        S.assume(a < b)
        sim.diag.add_diagnostic("one", dia.RecordFilter("box.values[0]", si, save_at=[a, b], export_func="npz"))
        sim.run_simulation()
        files = S.exports(sim.folder_path)
        S.check("exported at its save points", sorted(files) == sorted(["one_%d.npz" % a, "one_%d.npz" % b]), str(sorted(files)))
        for k in (a, b):
            S.eq("each export holds the value at its save point", files["one_%d.npz" % k]["one"], V[k // bs - 1], "k=%d" % k)
