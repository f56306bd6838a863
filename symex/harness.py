"""Harness runtime: one harness body, two interpretations.

  * symbolic  (class SymS): inputs are solver variables, `check` is a query
  * concrete  (class ConS): inputs are the numbers of one model, the code under
    test is the unpatched real code, `check` is an ordinary test
"""
import builtins
import contextlib
import importlib
import itertools
import math
import os
import pkgutil
import random
import shutil
import sys
import tempfile
import time
import traceback
import types
from fractions import Fraction
from pathlib import Path

import numpy as np

TOL = 1e-6         # two reals closer than this are "equal" (floats are modelled as reals)
_CUR = None


def current():
    return _CUR


def _set_current(s):
    global _CUR
    _CUR = s


class Violation:
    pass


# ---------------------------------------------------------------------------
class RngSym:
    """Nondeterministic random generator: draw number i of stream `name` is the input
    variable `<name>.u<i>` (uniform in [0,1)) or `<name>.n<i>` (any real in a box)."""

    def __init__(self, S, name):
        self.S, self.name, self.i = S, name, 0

    def __deepcopy__(self, memo):
        r = RngSym(self.S, self.name)
        r.i = self.i
        return r

    def _draw(self, kind):
        i = self.i
        self.i += 1
        if kind == "u":
            return self.S.real("%s.u%d" % (self.name, i), 0, 1, hi_open=True)
        return self.S.real("%s.n%d" % (self.name, i), -4, 4)

    def _size(self, size, *bc):
        P = self.S.np
        if size is None:
            shp = np.broadcast_shapes(*[np.shape(b) if isinstance(b, np.ndarray) else () for b in bc])
            return shp if shp != () else None
        if isinstance(size, (tuple, list)):
            return tuple(s.__index__() for s in size)
        return (size.__index__(),)

    def _fill(self, size, kind):
        if size is None:
            return self._draw(kind)
        n = 1
        for s in size:
            n *= s
        return self.S.array([self._draw(kind) for _ in range(n)]).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._fill(self._size(size, low, high), "u")
        return low + (high - low) * u

    def random(self, size=None, **k):
        return self._fill(self._size(size), "u")

    def rand(self, *s):
        return self.random(s if s else None)

    def random_sample(self, size=None):
        return self.random(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        n = self._fill(self._size(size, loc, scale), "n")
        return loc + scale * n

    def standard_normal(self, size=None, **k):
        return self._fill(self._size(size), "n")

    def randn(self, *s):
        return self.standard_normal(s if s else None)

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        u = self._fill(self._size(size), "u")
        v = self.S.np.floor(low + (high - low) * u)
        return v.astype(int) if isinstance(v, np.ndarray) else int(v)
    randint = integers

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        P = self.S.np
        arr = P.arange(a) if not isinstance(a, (np.ndarray, list, tuple)) else P.array(a)
        n = len(arr)
        if not replace:
            from .sym import Unsupported
            raise Unsupported("choice without replacement")
        w = [1.0 / n] * n if p is None else list(P.array(p).tolist())
        u = self._fill(self._size(size), "u")

        def one(x):
            acc = 0
            for i in range(n - 1):
                acc = acc + w[i]
                if bool(x < acc):
                    return i
            return n - 1
        if size is None:
            return arr[one(u)]
        idx = [one(x) for x in u.reshape(-1)]
        r = arr[np.array(idx, dtype=int)]
        return r.reshape(tuple(u.shape) + tuple(arr.shape[1:]))

    def multinomial(self, n, pvals, size=None):
        P = self.S.np
        k = len(pvals)
        cnt = [0] * k
        for _ in range(n.__index__()):
            cnt[int(self.choice(k, p=pvals))] += 1
        return P.array(cnt)

    def shuffle(self, x, axis=0):
        pass    # one admissible outcome; order-insensitive properties only

    def permutation(self, x, axis=0):
        P = self.S.np
        return P.arange(x) if not isinstance(x, (np.ndarray, list, tuple)) else P.array(x)

    def __getattr__(self, n):
        from .sym import Unsupported
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("rng.%s" % n)


class RngCon(RngSym):
    def __deepcopy__(self, memo):
        r = RngCon(self.S, self.name)
        r.i = self.i
        return r

    def __getattr__(self, n):
        raise AttributeError(n)


# ---------------------------------------------------------------------------
class _Base:
    def __init__(self, case, seed):
        self.case = case
        self.seed = seed
        self.scratch_dirs = []
        self.fft_stub = {}
        self._rngs = {}
        self.tags = {}
        self._patched = []

    def scratch(self):
        d = Path(tempfile.mkdtemp(prefix="symex_"))
        self.scratch_dirs.append(d)
        return d

    def patch(self, modname, attr, value):
        """replace an environment dependency of the code under test, undone at cleanup"""
        m = self.mod(modname)
        self._patched.append((m, attr, getattr(m, attr)))
        setattr(m, attr, value)

    def exports(self, folder):
        """{file name: {key: array}} of the .npz files present in `folder`"""
        out = {}
        for f in sorted(Path(folder).iterdir()):
            if f.suffix == ".npz":
                out[f.name] = self._load_npz(f)
        return out

    def cleanup(self):
        for m, a, v in reversed(self._patched):
            setattr(m, a, v)
        self._patched = []
        for d in self.scratch_dirs:
            if str(d).startswith(tempfile.gettempdir()):
                shutil.rmtree(d, ignore_errors=True)

    def mod(self, name):
        return importlib.import_module(name)

    def tag(self, **kw):
        self.tags.update(kw)

    def config(self, **kw):
        cfg = self.mod("aspsim.configutil").load_default_config()
        for k, v in kw.items():
            setattr(cfg, k, v)
        return cfg

    def setup(self, rng=None, base=None, session=None, **kw):
        sim = self.mod("aspsim.simulator")
        s = sim.SimulatorSetup(base_fig_path=base, session_folder=session, rng=rng if rng is not None else self.rng("simrng"))
        kw.setdefault("rt60", 0)
        kw.setdefault("reverb", "none")
        for k, v in kw.items():
            setattr(s.sim_info, k, v)
        return s

    @contextlib.contextmanager
    def quiet(self):
        with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
            yield

    def raises(self, fn, exc=Exception):
        """the exception fn raises, or None"""
        try:
            fn()
        except exc as e:      # engine exceptions are BaseException and pass through
            return e
        return None


class SymS(_Base):
    symbolic = True

    def __init__(self, case, seed, C):
        super().__init__(case, seed)
        from . import sym as Y
        from .npshim import NP
        self.Y, self.C, self.np = Y, C, NP
        self.violations = []
        self.checks = 0
        self.names = set()
        self.inconclusive = []

    def _load_npz(self, f):
        from . import npshim
        r = None
        for p, d in npshim.SAVED_NPZ:
            if Path(p) == f:
                r = d
        return r

    # -- inputs -----------------------------------------------------------
    def real(self, name, lo=-1, hi=1, lo_open=False, hi_open=False):
        z3 = self.Y.z3
        if name in self.C.inputs:
            return self.Y.SymReal(self.C.inputs[name][1])
        v = z3.Real(name)
        self.C.inputs[name] = ("r", v, lo, hi)
        if lo is not None:
            l = self.Y.zconst(lo, True)
            self.C.add(v > l if lo_open else v >= l)
        if hi is not None:
            h = self.Y.zconst(hi, True)
            self.C.add(v < h if hi_open else v <= h)
        return self.Y.SymReal(v)

    def int(self, name, lo=None, hi=None):
        z3 = self.Y.z3
        if name in self.C.inputs:
            return self.Y.SymInt(self.C.inputs[name][1])
        v = z3.Int(name)
        self.C.inputs[name] = ("i", v, lo, hi)
        if lo is not None:
            self.C.add(v >= lo)
        if hi is not None:
            self.C.add(v <= hi)
        return self.Y.SymInt(v)

    def cint(self, name, lo, hi):
        """a symbolic size, made concrete by forking"""
        v = self.int(name, lo, hi)
        return v.__index__()

    def bool(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def string(self, name, n, alphabet):
        """a string of n characters, each any character of the alphabet"""
        z3 = self.Y.z3
        from . import symstr
        cs = sorted(set(ord(c) for c in alphabet))
        out = ""
        for i in range(n):
            v = self.int("%s_%d" % (name, i), cs[0], cs[-1])
            self.C.add(z3.Or(*[v.e == c for c in cs]))
            out += symstr.sentinel(v.e)
        return symstr.wrap(out)

    def same(self, a, b):
        """equality of two strings (symbolic)"""
        from . import symstr
        return symstr.SymStr(symstr._raw(a))._eq(b) if isinstance(a, str) and isinstance(b, str) else (a is b or a == b)

    def choose(self, name, options):
        return options[self.cint(name, 0, len(options) - 1)]

    def reals(self, name, shape, lo=-1, hi=1):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi)
        from .npshim import SA
        return a.view(SA)

    def array(self, x):
        return self.np.array(x)

    def rng(self, name):
        return RngSym(self, name)

    def new_rng(self, why):
        n = self._rngs.get(why, 0)
        self._rngs[why] = n + 1
        return RngSym(self, "%s%d" % (why, n))

    def global_rng(self):
        if "global" not in self._rngs:
            self._rngs["global"] = RngSym(self, "np.random")
        return self._rngs["global"]

    # -- logic ---------------------------------------------------------------
    def assume(self, cond):
        if not bool(cond):
            raise self.Y.Infeasible()

    def and_(self, *x): return self.Y.b_and(*x)
    def or_(self, *x): return self.Y.b_or(*x)
    def not_(self, x): return self.Y.b_not(x)
    def implies(self, a, b): return self.Y.b_implies(a, b)
    def ite(self, c, a, b): return self.Y.ite(c, a, b)
    def val(self, x): return None

    # -- checks -----------------------------------------------------------------
    def _model_inputs(self, m):
        z3 = self.Y.z3
        out = {}
        for n, spec in self.C.inputs.items():
            v = m.eval(spec[1], model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[n] = float(v.approx(20).as_fraction())
            else:
                try:
                    out[n] = float(Fraction(str(v)))
                except Exception:
                    out[n] = 0.0
        return out

    def _report(self, name, models, detail):
        self.violations.append({"check": name, "models": models, "detail": detail})

    def _query(self, bad_levels, name, detail):
        """bad_levels: list of z3 Bool, weakest last; violated if the weakest is sat."""
        Y, z3, C = self.Y, self.Y.z3, self.C
        self.checks += 1
        C.stats.checks += 1
        self.names.add(name)
        weakest = z3.simplify(bad_levels[-1])
        if z3.is_false(weakest):
            C.stats.trivial += 1
            return True
        C.solver.set("timeout", Y.CHECK_TIMEOUT if not C.nonlinear else Y.FEAS_TIMEOUT)
        r = C._timed(lambda: C.solver.check(weakest))
        C.solver.set("timeout", Y.FEAS_TIMEOUT)
        model = C.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            r, model = C.strong([weakest], Y.CHECK_TIMEOUT)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            # second opinion: fix some inputs to look for a witness
            model = self._guess(weakest)
            if model is None:
                self.inconclusive.append(name)
                return None
        models = []
        for b in bad_levels[:-1]:
            rr = C._timed(lambda: C.solver.check(b))
            if rr == z3.sat:
                models.append(self._model_inputs(C.solver.model()))
        models.append(self._model_inputs(model))
        d = self._diverse(bad_levels[0])
        if d is not None:
            models.insert(0, d)
        d = self._diverse(weakest)
        if d is not None:
            models.append(d)
        self._report(name, models, detail)
        return False

    def _guess(self, bad):
        z3, C = self.Y.z3, self.C
        rnd = random.Random(self.seed)
        for _ in range(3):
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*C.pc)
            s.add(bad)
            for n, spec in C.inputs.items():
                if spec[0] == "r" and rnd.random() < 0.7:
                    s.push()
                    s.add(spec[1] == self._rand(spec, rnd))
                    if C._timed(s.check) == z3.unsat:
                        s.pop()
            if C._timed(s.check) == z3.sat:
                return s.model()
        return None

    def _rand(self, spec, rnd):
        lo = -1 if spec[2] is None else spec[2]
        hi = 1 if spec[3] is None else spec[3]
        lo, hi = Fraction(lo), Fraction(hi)
        return self.Y.zconst(lo + (hi - lo) * Fraction(rnd.randint(3, 61), 64), True)

    def _diverse(self, bad=None, limit=40):
        """a model with random-looking reals where the path leaves them free"""
        z3, C = self.Y.z3, self.C
        rnd = random.Random(self.seed * 7919 + len(C.taken))
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*C.pc)
        if bad is not None:
            s.add(bad)
        specs = [sp for sp in C.inputs.values() if sp[0] == "r"]
        eqs = [sp[1] == self._rand(sp, rnd) for sp in specs]
        r = C._timed(lambda: s.check(*eqs))
        if r == z3.sat:
            return self._model_inputs(s.model())
        order = list(range(len(specs)))
        rnd.shuffle(order)
        t_end = time.time() + 2
        for i in order[:limit]:
            if time.time() > t_end:
                break
            s.push()
            s.add(eqs[i])
            if C._timed(s.check) != z3.sat:
                s.pop()
        if C._timed(s.check) == z3.sat:
            return self._model_inputs(s.model())
        return None

    def num(self, x):
        """the value of x if it does not depend on the inputs (within this path), else None"""
        if not self.Y.is_sym(x):
            return float(x)
        z3, C = self.Y.z3, self.C
        t = z3.simplify(self.Y.term(x, True), som=True)
        if not z3.is_rational_value(t):
            m = C.ensure_model()
            v = m.eval(t, model_completion=True) if m is not None else None
            if v is None or not z3.is_rational_value(v) or C._timed(lambda: C.solver.check(t != v)) != z3.unsat:
                return None
            t = v
        return float(t.as_fraction())

    def holds(self, cond):
        """is cond true for every input of this path? (a query, not a check)"""
        Y, z3, C = self.Y, self.Y.z3, self.C
        if not Y.is_sym(cond):
            return bool(cond)
        for m in (C.ensure_model(), self._sample_model()):
            if m is not None and z3.is_false(m.eval(Y.bterm(cond), model_completion=True)):
                return False
        C.solver.set("timeout", Y.CHECK_TIMEOUT)
        r = C._timed(lambda: C.solver.check(z3.Not(Y.bterm(cond))))
        C.solver.set("timeout", Y.FEAS_TIMEOUT)
        if r == z3.unknown:
            r, _ = C.strong([z3.Not(Y.bterm(cond))], Y.CHECK_TIMEOUT)
        return r == z3.unsat

    def _sample_model(self):
        """a second, random-looking model of the path (cached)"""
        key = len(self.C.pc)
        if getattr(self, "_sm", (None, None))[0] != key:
            z3, C = self.Y.z3, self.C
            rnd = random.Random(self.seed)
            s = z3.Solver()
            s.set("timeout", 500)
            s.add(*C.pc)
            specs = [sp for sp in C.inputs.values() if sp[0] == "r"]
            r = C._timed(lambda: s.check(*[sp[1] == self._rand(sp, rnd) for sp in specs]))
            self._sm = (key, s.model() if r == z3.sat else None)
        return self._sm[1]

    def close(self, a, b):
        """symbolic |a - b| <= TOL"""
        d = a - b
        if not self.Y.is_sym(d):
            return abs(d) <= TOL
        t = self.Y.reduce_poly(self.Y.z3.simplify(self.Y.term(d, True), som=True))
        c = self.Y.zconst(Fraction(TOL), True)
        return self.Y.wrap_s(self.Y.z3.And(t <= c, t >= -c))

    def check(self, name, cond, detail=""):
        z3 = self.Y.z3
        if self.Y.is_sym(cond):
            bad = z3.Not(self.Y.bterm(cond))
        else:
            bad = z3.BoolVal(not cond)
        if z3.is_true(bad):
            self.checks += 1
            self.C.stats.checks += 1
            self.names.add(name)
            m = self.C.ensure_model()
            models = [self._model_inputs(m)] if m is not None else []
            d = self._diverse()
            if d is not None:
                models.insert(0, d)
            if not models:
                self.inconclusive.append(name)
                return None
            self._report(name, models, detail)
            return False
        return self._query([bad], name, detail)

    def le(self, name, a, b, detail=""):
        """a <= b up to tolerance"""
        Y, z3 = self.Y, self.Y.z3
        d = a - b
        if not Y.is_sym(d):
            return self.check(name, d <= TOL, detail)
        t = Y.term(d, True)
        return self._query([t > Y.zconst(Fraction(1, 10), True), t > Y.zconst(Fraction(1, 1000), True), t > Y.zconst(Fraction(TOL), True)], name, detail)

    def eq(self, name, a, b, detail=""):
        Y, z3 = self.Y, self.Y.z3
        if isinstance(a, (list, tuple)):
            a = self.np.array(a)
        if isinstance(b, (list, tuple)):
            b = self.np.array(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = self.np.asarray(a), self.np.asarray(b)
            if a.shape != b.shape:
                return self.check(name, False, "shape %s != %s %s" % (a.shape, b.shape, detail))
            pairs = list(zip(a.view(np.ndarray).reshape(-1), b.view(np.ndarray).reshape(-1)))
        else:
            pairs = [(a, b)]
        diffs = []
        for x, y in pairs:
            xs, ys = Y.is_sym(x), Y.is_sym(y)
            if not xs and not ys:
                if isinstance(x, float) and isinstance(y, float) and (math.isnan(x) or math.isnan(y)):
                    if math.isnan(x) and math.isnan(y):
                        continue
                    return self.check(name, False, "nan mismatch " + detail)
                if isinstance(x, complex) or isinstance(y, complex):
                    if abs(x - y) > TOL:
                        return self.check(name, False, detail)
                    continue
                if x == y or abs(x - y) <= TOL:
                    continue
                return self.check(name, False, "%r != %r %s" % (x, y, detail))
            if Y._special(x) or Y._special(y):
                return self.check(name, False, "nan/inf vs value " + detail)
            if Y.is_intlike(x) and Y.is_intlike(y):
                d = z3.simplify(Y.term(x, False) - Y.term(y, False))
                if z3.is_int_value(d):
                    if d.as_long() == 0:
                        continue
                d = z3.ToReal(d)
            else:
                d = z3.simplify(Y.term(x, True) - Y.term(y, True), som=True)
            if not z3.is_rational_value(d):
                d = Y.reduce_poly(d)
            if z3.is_rational_value(d) and abs(d.as_fraction()) <= Fraction(TOL):
                continue
            diffs.append(d)
        if not diffs:
            self.checks += 1
            self.C.stats.checks += 1
            self.C.stats.trivial += 1
            self.C.stats.queries += 1      # decided by the solver's simplifier
            self.names.add(name)
            return True
        lv = []
        for m in (Fraction(1, 10), Fraction(1, 1000), Fraction(TOL)):
            c = Y.zconst(m, True)
            lv.append(z3.Or(*[z3.Or(d > c, d < -c) for d in diffs]))
        return self._query(lv, name, detail)

    def is_nan(self, x):
        return (not self.Y.is_sym(x)) and isinstance(x, float) and math.isnan(x)


class ConS(_Base):
    symbolic = False

    def __init__(self, case, seed, inputs):
        super().__init__(case, seed)
        self.inputs = inputs
        self.np = np
        self.failed = []
        self.missing = 0

    def _load_npz(self, f):
        with np.load(f, allow_pickle=True) as d:
            return {k: d[k] for k in d.files}

    def _get(self, name, default):
        if name in self.inputs:
            return self.inputs[name]
        self.missing += 1
        return default

    def real(self, name, lo=-1, hi=1, lo_open=False, hi_open=False):
        lo_ = -1 if lo is None else lo
        hi_ = 1 if hi is None else hi
        r = random.Random("%s|%s" % (self.seed, name))
        v = float(self._get(name, lo_ + (hi_ - lo_) * r.uniform(0.1, 0.9)))
        if hi_open and v >= hi_:
            v = np.nextafter(float(hi_), float(lo_))
        return float(v)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else (hi if hi is not None else 0)))

    cint = int

    def string(self, name, n, alphabet):
        cs = sorted(set(ord(c) for c in alphabet))
        out = [self.int("%s_%d" % (name, i), cs[0], cs[-1]) for i in range(n)]
        return "".join(chr(c) if c in cs else chr(cs[0]) for c in out)

    def same(self, a, b):
        return a == b

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choose(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def reals(self, name, shape, lo=-1, hi=1):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.zeros(shape)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi)
        return a

    def array(self, x):
        return np.array(x)

    def rng(self, name):
        return RngCon(self, name)

    def assume(self, cond):
        if not cond:
            raise Rejected()

    def and_(self, *x): return all(bool(i) for i in x)
    def or_(self, *x): return any(bool(i) for i in x)
    def not_(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def ite(self, c, a, b): return a if c else b
    def val(self, x): return x

    def num(self, x):
        return float(x)

    def holds(self, cond):
        return bool(cond)

    def close(self, a, b):
        return bool(abs(a - b) <= TOL)

    def check(self, name, cond, detail=""):
        if not bool(cond):
            self.failed.append((name, detail))
            return False
        return True

    def le(self, name, a, b, detail=""):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ok = bool(np.all(np.asarray(a) <= np.asarray(b) + TOL / 2))
        else:
            ok = a <= b + TOL / 2
        return self.check(name, ok, detail or "%s > %s" % (a, b))

    def eq(self, name, a, b, detail=""):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.check(name, False, "shape %s != %s %s" % (a.shape, b.shape, detail))
        try:
            a, b = a.astype(complex if a.dtype.kind == "c" or b.dtype.kind == "c" else float), b.astype(complex if a.dtype.kind == "c" or b.dtype.kind == "c" else float)
        except (TypeError, ValueError):
            return self.check(name, bool(np.all(a == b)), detail)
        with np.errstate(invalid="ignore"):
            ok = bool(np.all((np.abs(a - b) <= TOL / 2 * np.maximum(1, np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))
        return self.check(name, ok, detail or "got %s want %s" % (a.reshape(-1)[:12], b.reshape(-1)[:12]))

    def is_nan(self, x):
        return isinstance(x, (float, np.floating)) and math.isnan(x)


class Rejected(BaseException):
    pass


def run_concrete(mod, case, inputs, seed):
    S = ConS(case, seed, inputs)
    _set_current(S)
    out = {"failed": [], "exc": None, "rejected": False}
    random.seed(seed)
    np.random.seed(seed & 0xFFFF)
    try:
        with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mod.run(S, case)
    except Rejected:
        out["rejected"] = True
    except Exception as e:
        out["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        S.cleanup()
        _set_current(None)
    out["failed"] = [(n, str(d)[:400]) for n, d in S.failed]
    out["missing"] = S.missing
    out["tags"] = S.tags
    return out
