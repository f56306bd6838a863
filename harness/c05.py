"""C05: when processors are called, what they see, and when their output is heard."""
from . import common as K

ID = "C05"
BOUNDS = "block sizes 1..4, tot_samples 1..8 (quick) / 1..12, chunk and buffer sizes in the listed ranges, all sample values symbolic; plus runs of 40 and 100 samples with block sizes 8, 15, 16; own signals of 1-2 channel dimensions"
STUBS = "user-supplied symbolic sources and scripted processor"


def cases(tier):
    T = tier != "quick"
    out = [
        dict(free=[("s", 1)], ctrl=[("c", 2)], mics=[("m", 2)], ir=2, tot=[1, 8 if not T else 13], chunk=[4, 6], buf=[7, 8], bs=[1, 4], pre=False),
        dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=2, tot=[3, 7], chunk=[1, 5], buf=[2, 7], bs=[1, 3], pre="sym"),
    ]
    out.append(dict(free=[("s", 2)], ctrl=[("c", 3)], mics=[("m", 4)], ir=6, tot=[40, 41], chunk=[16, 18], buf=17, bs=8, pre="sym"))
    out.append(dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=3, tot=100, chunk=[32, 33], buf=40, bs=[15, 16], pre=False))
    out.append(dict(own=True, free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 2)], ir=2, tot=[1, 7], chunk=[3, 4], buf=5, bs=[1, 3], pre=False, contrib="sym"))
    for m in (1, 2):
        out.append(dict(kind="debug", free=[("s", 1)], ctrl=[("loudspeaker", m)], mics=[("mic", m)], ir=2, tot=[1, 6 if not T else 11], chunk=[2, 5], buf=4, bs=[1, 3], pre="sym"))
    if T:
        out.append(dict(free=[("s", 1)], ctrl=[("c", 1)], mics=[("m", 1)], ir=3, tot=[5, 12], chunk=[2, 9], buf=[3, 11], bs=[1, 5], pre="sym"))
    return out


def debug(S, spec):
    """the processor shipped for debugging plays back what it hears, and keeps what was heard and played"""
    bs, tot = spec["bs"], spec["tot"]
    st, x, h = K.build(S, spec)
    sim = st.create_simulator()
    K.record(S, sim, spec["mics"] + spec["ctrl"] + spec["free"])
    p = S.mod("aspsim.processor").DebugProcessor(sim.sim_info, sim.arrays, bs)
    sim.add_processor(p)
    sim.run_simulation()
    mic, ls = (sim.diag["rec_" + n].get_output() for n in ("mic", "loudspeaker"))
    seen = min(tot, p.processed_samples)
    S.check("every sample is processed", p.processed_samples >= tot and p.processed_samples - bs <= tot and p.processed_samples % bs == 0, "%d" % p.processed_samples)
    S.eq("heard and recorded signal are the same", p.mic[:, :seen], mic[:, :seen])
    S.eq("played and recorded signal are the same", p.ls[:, :seen], ls[:, :seen])
    num = spec["mics"][0][1]
    want = S.array([[0.0] * tot] * num)
    for t in range(bs, tot):
        want[:, t] = mic[:, t - bs]
    S.eq("what is heard is played one block later", ls, want)


def run(S, case):
    spec = K.resolve(S, case)
    if case.get("kind") == "debug":
        return debug(S, spec)
    bs, tot = spec["bs"], spec["tot"]
    own = {"aux": S.choose("dim", [2, (3,), (2, 3)])} if case.get("own") else {}
    r = K.run_sim(S, spec, reads=("m", "s", "c"), own=own)
    p = r["proc"]
    n_calls = len(p.calls)
    S.check("prepared exactly once", p.prepared == 1)
    S.check("every sample of the run is offered to the processor", n_calls * bs >= tot)
    S.check("not called past the end", (n_calls - 1) * bs <= tot)
    for j, (n, i) in enumerate(p.calls):
        S.check("called with its own block size", n == bs)
        for sig in ("m", "s", "c"):
            seen = p.seen[sig][j]
            S.check("block shape", seen.shape == (r["out"][sig].shape[0], bs))
            m = min(bs, tot - j * bs)
            if m > 0:
                S.eq("block j holds samples j*bs..(j+1)*bs", seen[:, :m], r["out"][sig][:, j * bs:j * bs + m], "%s block %d" % (sig, j))
    want = S.array([[0.0] * tot] * r["ctrl"][0][1])
    y = r["y"]["c"]
    for t in range(tot):
        if t >= bs:
            want[:, t] = y[:, t - bs]
    S.eq("output of block j is played at (j+1)*bs", r["out"]["c"], want)
    for k, dim in own.items():
        dim = dim if isinstance(dim, tuple) else (dim,)
        S.check("one block of the processor's own signal per call", len(p.own[k]) == n_calls)
        for j, got in enumerate(p.own[k]):
            S.check("the processor's own signal has the dimensions it asked for", got.shape == dim + (bs,))
            S.check("the processor's own signal keeps what was written one block before", all(v == j for v in got.reshape(-1)), "block %d" % j)
    if spec.get("contrib"):
        for t in range(tot):
            S.eq("the output reaches the microphones through the paths", r["out"]["c~m"][:, t],
                 S.array(K.convolved(S, spec, {u: [want[0, u]] for u in range(tot)}, r["h"]["c", "m"], 1, 2, t)))
