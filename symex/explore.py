"""Path exploration, counterexample replay and evidence for one property."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO_SRC = Path(os.environ.get("ASPSIM_SRC", "/repo/src"))
PY = sys.executable
NPROC = int(os.environ.get("SYMEX_PROCS", str(min(8, os.cpu_count() or 1))))
PATH_LIMIT = int(os.environ.get("SYMEX_PATH_S", "90"))


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


_FUNCS = set()


def _monitor():
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "symex")
    except ValueError:
        return
    root = str(REPO_SRC)

    def start(code, off):
        if code.co_filename.startswith(root):
            _FUNCS.add(code.co_filename[len(root) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def exec_path(mod, case, prefix, seed, want_witness):
    """Run the harness once along `prefix` (then greedily). Returns a plain dict."""
    from . import sym as Y
    from . import harness as H
    from . import npshim
    st = Y.Stats()
    C = Y.Ctx(prefix, st)
    Y.set_ctx(C)
    S = H.SymS(case, seed, C)
    H._set_current(S)
    del npshim.SAVED_NPZ[:]
    from . import symstr
    symstr.reset()
    random.seed(seed)
    res = {"status": "ok", "msg": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(PATH_LIMIT)
    try:
        mod.run(S, case)
    except Y.Infeasible:
        res["status"] = "infeasible"
    except (Y.Unsupported, Y.BoundExceeded) as e:
        res["status"] = "unsupported" if isinstance(e, Y.Unsupported) else "bound"
        res["msg"] = str(e)[:300] + " @ " + _where(e)
    except PathTimeout:
        res["status"] = "timeout"
    except RecursionError as e:
        res["status"] = "unsupported"
        res["msg"] = "recursion"
    except Exception as e:
        res["status"] = "exception"
        res["msg"] = "%s: %s @ %s" % (type(e).__name__, str(e)[:200], _where(e))
        res["tb"] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
    res["witness"] = None
    res["violations"] = S.violations
    try:
        signal.alarm(30)
        if res["status"] in ("exception", "unsupported", "bound", "timeout"):
            d = S._diverse()
            ms = [d] if d is not None else []
            try:
                m = C.ensure_model()
                if m is not None:
                    ms.append(S._model_inputs(m))
            except Y.Infeasible:
                res["status"] = "infeasible"
            res["models"] = ms
        elif res["status"] == "ok" and want_witness and not S.violations:
            res["witness"] = S._diverse()
    except PathTimeout:
        res.setdefault("models", [])
    finally:
        signal.alarm(0)
    st.paths = 1
    res["tags"] = dict(S.tags)
    res["inconclusive"] = S.inconclusive
    res["checks"] = S.checks
    res["names"] = sorted(S.names)
    res["taken"] = len(C.taken)
    res["inputs"] = len(C.inputs)
    res["stats"] = st.as_dict()
    res["pending"] = C.pending if res["status"] != "timeout" else C.pending
    S.cleanup()
    H._set_current(None)
    Y.set_ctx(None)
    return res


def _where(e):
    tb = e.__traceback__
    out = ""
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        last = "%s:%d" % (os.path.basename(f.co_filename), tb.tb_lineno)
        if "/aspsim/" in f.co_filename or "/harness/" in f.co_filename:
            out = last
        tb = tb.tb_next
    return out + " <- " + last


_MOD = None
_CASES = None
_SEED = 1


def _job(ci, stack, slice_s, want):
    t0 = time.time()
    out = []
    while stack:
        p = stack.pop()
        r = exec_path(_MOD, _CASES[ci], p, _SEED, want > 0)
        if r["witness"] is not None:
            want -= 1
        stack.extend(r.pop("pending"))
        r["case"] = ci
        out.append(r)
        if time.time() - t0 > slice_s:
            break
    return ci, stack, out, sorted(_FUNCS)


class Replayer:
    """Runs (case, inputs) on the unpatched real code, in its own process."""
    def __init__(self, modname, tier, seed, jit):
        self.args = (modname, tier, seed, jit)
        self.p = None

    def start(self):
        modname, tier, seed, jit = self.args
        env = dict(os.environ)
        env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["MPLBACKEND"] = "Agg"
        env["PYTHONPATH"] = str(ROOT) + os.pathsep + str(REPO_SRC)
        self.p = subprocess.Popen([PY, "-m", "symex.replay", "--serve", modname, tier, str(seed)], cwd=str(ROOT), env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)

    def run(self, ci, inputs, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        import select
        try:
            self.p.stdin.write(json.dumps({"case": ci, "inputs": inputs}) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return {"failed": [("terminates", "no result within %d s" % timeout)], "exc": None, "rejected": False, "missing": 0, "hang": True}
            line = self.p.stdout.readline()
            if not line:
                self.stop()
                return {"failed": [], "exc": "process died", "rejected": False, "missing": 0}
            return json.loads(line)
        except (BrokenPipeError, OSError, ValueError) as e:
            self.stop()
            return {"failed": [], "exc": None, "rejected": True, "missing": 0, "err": str(e)}

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            self.p.wait()
            self.p = None


def load_known(pid):
    """lines 'KNOWN property=<id> check=<name> [key=value ...] :: text' of known_findings.txt"""
    f = ROOT / "known_findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: "):
                head, _, text = line[7:].partition(" :: ")
                kv = dict(t.split("=", 1) for t in head.split())
                if kv.pop("property", None) == pid:
                    out.append((kv, text))
    return out


def is_known(known, fails, tags):
    """every failing check of the replay must be listed, with its tags"""
    hit = []
    for name in fails:
        m = None
        for kv, text in known:
            if kv.get("check") == name.replace(" ", "_") and all(str(tags.get(k)) == v for k, v in kv.items() if k != "check"):
                m = text
        if m is None:
            return None
        hit.append(m)
    return hit or None


def main(argv=None):
    global _MOD, _CASES, _SEED
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    verbose = bool(os.environ.get("SYMEX_V"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    _SEED = seed
    t0 = time.time()
    budget = float(os.environ.get("SYMEX_BUDGET_S", "240" if tier == "quick" else "780"))
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    if str(REPO_SRC) not in sys.path:
        sys.path.insert(0, str(REPO_SRC))
    modname = "harness." + pid.lower()
    rp = Replayer(modname, tier, seed, False)
    rp.start()                       # imports while we explore
    from . import patch
    mod = importlib.import_module(modname)
    if hasattr(mod, "prepare"):
        mod.prepare()
    encoded = patch.install(getattr(mod, "EXTRA_MODULES", ()))
    import aspsim
    if not str(Path(aspsim.__file__).resolve()).startswith(str(REPO_SRC.resolve())):
        print("aspsim imported from", aspsim.__file__)
        return 2
    _MOD = mod
    cases = mod.cases(tier)
    _CASES = cases
    _monitor()
    import gc
    gc.freeze()

    tot = {"paths": 0, "infeasible": 0, "checks": 0, "decisions": 0, "queries": 0, "solver_s": 0.0, "unknown": 0, "trivial": 0}
    names, funcs = set(), set()
    witnesses, candidates, undecided, unsup = [], [], [], []
    per_case = [0] * len(cases)
    t_case = [0.0] * len(cases)
    wit_case = [0] * len(cases)
    ok_paths = 0
    nwant = 24 if tier == "quick" else 120
    max_in = 0
    exhaustive = True
    deadline = t0 + budget
    ctx = mp.get_context("fork")
    import threading
    ex = cf.ProcessPoolExecutor(max_workers=NPROC, mp_context=ctx)
    only = os.environ.get("SYMEX_CASES")          # development only: indices of the cases to explore
    todo = [(ci, [[]]) for ci in range(len(cases)) if not only or ci in [range(len(cases))[int(i)] for i in only.split(",")]]
    running = {}
    broken = 0

    def submit():
        while todo and len(running) < NPROC + 2:
            ci, stack = todo.pop(0)
            w = 1 if (len(witnesses) < nwant or wit_case[ci] == 0) else 0
            sl = 0.5 if len(todo) < NPROC else 2.0
            running[ex.submit(_job, ci, stack, sl, w)] = (ci, stack)
    submit()
    stop = False
    seen_exc = set()
    while running:
        done, _ = cf.wait(list(running), timeout=1.0, return_when=cf.FIRST_COMPLETED)
        now = time.time()
        for f in done:
            ci0, _s = running.pop(f)
            try:
                ci, stack, res, fn = f.result()
            except Exception as e:
                broken += 1
                exhaustive = False
                undecided.append("worker lost on case %d: %s" % (ci0, e))
                stop = True
                continue
            funcs.update(fn)
            for r in res:
                tot["paths"] += 1
                for k in ("decisions", "queries", "solver_s", "unknown", "trivial", "checks"):
                    tot[k] += r["stats"].get(k, 0)
                t_case[ci] += r["stats"].get("solver_s", 0)
                names.update(r["names"])
                max_in = max(max_in, r["inputs"])
                if r["status"] == "infeasible":
                    tot["infeasible"] += 1
                else:
                    per_case[ci] += 1
                if r["status"] == "ok":
                    ok_paths += 1
                for v in r["violations"]:
                    candidates.append((ci, v["check"], v["models"], r["tags"], v["detail"]))
                for n in r["inconclusive"]:
                    undecided.append("case %d: %s unknown" % (ci, n))
                    exhaustive = False
                if r["status"] == "exception":
                    candidates.append((ci, "exception", r["models"], r["tags"], r["msg"]))
                    if verbose and r["msg"] not in seen_exc:
                        seen_exc.add(r["msg"])
                        print("EXC", cases[ci], r["msg"], r.get("tb", "")[-1500:])
                elif r["status"] in ("unsupported", "bound", "timeout"):
                    exhaustive = False
                    unsup.append((ci, r["status"], r["msg"], r.get("models", [])))
                if r["witness"] is not None:
                    witnesses.append((ci, r["witness"]))
                    wit_case[ci] += 1
            if stack:
                # share: split the leftovers so that idle workers get some
                if len(todo) + len(running) < NPROC and len(stack) > 1:
                    k = max(1, len(stack) // NPROC)
                    for i in range(0, len(stack), k):
                        todo.append((ci, stack[i:i + k]))
                else:
                    todo.append((ci, stack))
        if len({(c[0], c[1]) for c in candidates}) >= 40:
            stop = True
            exhaustive = False
        if now > deadline or stop:
            if todo or running:
                exhaustive = False
            todo = []
            if now > deadline + 30 or broken:
                break
        else:
            try:
                submit()
            except Exception:
                stop = True
    left = len(todo)
    for p in list(getattr(ex, "_processes", {}).values() if ex._processes else []):
        try:
            os.kill(p.pid, signal.SIGKILL)
        except (ProcessLookupError, AttributeError):
            pass
    ex.shutdown(wait=False, cancel_futures=True)
    t_explore = time.time() - t0

    # ---- concrete replays -----------------------------------------------------
    known = load_known(pid)
    known_hits, violations, spurious = [], [], []
    validated, samples = 0, []

    def judge(ci, check, inputs, tags, detail, out, origin):
        fails = [n for n, _ in out["failed"]] + (["exception"] if out["exc"] else [])
        if not fails:
            return False
        kh = is_known(known, fails, out.get("tags") or tags)
        if kh:
            for h in kh:
                if h not in known_hits:
                    known_hits.append(h)
        else:
            violations.append({"case": ci, "case_desc": cases[ci], "check": check, "failed": out["failed"], "exc": out["exc"],
                               "inputs": inputs, "detail": detail, "origin": origin, "tb": out.get("tb", "")})
        return True

    # counterexamples first, one group per (case, check)
    groups = {}
    for c in candidates:
        groups.setdefault((c[0], c[1], tuple(sorted(map(str, c[3].items())))), []).append(c)
    for key, cs in sorted(groups.items(), key=lambda kv: str(kv[0])):
        hit = False
        tried = 0
        for c in cs:
            for m in c[2]:
                if tried >= 12 or len(violations) >= 3:
                    break
                tried += 1
                out = rp.run(c[0], m)
                if out["rejected"]:
                    continue
                if judge(c[0], c[1], m, c[3], c[4], out, "solver counterexample"):
                    hit = True
                    break
            if hit or len(violations) >= 3:
                break
        if not hit and len(violations) < 3:
            spurious.append("%s on case %s: solver counterexample does not reproduce (%s)" % (key[1], cases[key[0]], cs[0][4]))
    if len(violations) < 3:
        # models of paths the encoding could not finish, then witnesses of decided paths
        rnd = random.Random(seed)
        rnd.shuffle(witnesses)
        seen = set()
        first = []
        for w in witnesses:
            if w[0] not in seen:
                seen.add(w[0])
                first.append(w)
        rest = [w for w in witnesses if w not in first]
        useful = unsup[:60]
        t_end = time.time() + (60 if tier == "quick" else 200)
        for ci, stt, msg, ms in useful:
            undecided.append("case %s: %s %s" % (cases[ci], stt, msg))
            for m in ms[:2]:
                if time.time() > t_end or len(violations) >= 3:
                    break
                out = rp.run(ci, m)
                if not out["rejected"]:
                    judge(ci, "replay", m, {}, msg, out, "model of a path the encoding could not finish")
        for ci, m in (first + rest)[:nwant + len(first)]:
            if time.time() > t_end or len(violations) >= 3:
                break
            out = rp.run(ci, m)
            if out["rejected"]:
                continue
            if not judge(ci, "replay", m, {}, "", out, "replayed witness of a path the solver had decided"):
                validated += 1
                if len(samples) < 3:
                    samples.append({"case": cases[ci], "inputs": dict(list(m.items())[:40]), "result": "all checks passed on the real code"})
    rp.stop()

    wall = time.time() - t0
    repdir = ROOT / "replays"
    rep = repdir / (pid + ".json")
    if violations:
        repdir.mkdir(exist_ok=True)
        rep.write_text(json.dumps({"property": pid, "module": modname, "tier": tier, "seed": seed, "violations": violations}, indent=1, default=str))
    elif rep.exists():
        rep.unlink()
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["paths"] - tot["infeasible"], "transitions": tot["decisions"],
              "traces_validated_against_impl": validated,
              "samples": samples or [{"case": c} for c in cases[:2]],
              "cases": len(cases), "cases_with_decided_paths": sum(1 for p in per_case if p),
              "infeasible_paths": tot["infeasible"], "symbolic_inputs_max": max_in,
              "assertions": tot["checks"], "assertion_names": sorted(names), "assertions_closed_by_simplifier": tot["trivial"],
              "solver_queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 3), "solver_unknown": tot["unknown"],
              "functions_encoded": sorted(funcs), "modules_encoded": encoded,
              "bounds": getattr(mod, "BOUNDS", ""), "stubs": getattr(mod, "STUBS", ""),
              "exhaustive_within_bounds": bool(exhaustive and not spurious), "undecided": undecided[:20], "unconfirmed": spurious[:20],
              "known_findings_reproduced": known_hits, "explore_seconds": round(t_explore, 2)},
          "assumptions": ["floating point is modelled as exact real arithmetic; values closer than 1e-6 count as equal",
                          "z3's verdicts; the numpy interpretation in symex/npshim.py (spot-checked by the concrete replays)"] + list(getattr(mod, "ASSUME", [])),
          "wall_s": round(wall, 2), "violations": len(violations)}
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1, default=str))

    for h in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, h))
    print("%s %s: %d cases, %d paths, %d assertions, %d queries, %.1f s solver, %d replays ok, %d functions, %.1f s%s" % (
        pid, tier, len(cases), tot["paths"], tot["checks"], tot["queries"], tot["solver_s"], validated, len(funcs), wall,
        "" if exhaustive else " (not exhaustive)"))
    if verbose:
        for ci in range(len(cases)):
            print("  [case %d: %d paths, %.1f s solver] %s" % (ci, per_case[ci], t_case[ci], str(cases[ci])[:110]))
    for s in undecided[:8]:
        print("  undecided:", s[:400])
    for s in spurious[:8]:
        print("  unconfirmed:", s[:600])
    if violations:
        for v in violations:
            print("  case %s check %s: %s %s" % (v["case_desc"], v["check"], v["failed"][:2], v["exc"] or ""))
            if verbose:
                print(v["tb"][-1500:], str(v["inputs"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if ok_paths == 0:
        print("  no path could be decided")
        return 2
    if (spurious or undecided) and os.environ.get("SYMEX_STRICT"):
        return 3
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
