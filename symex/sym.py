"""Symbolic scalars over z3 and the path-exploration context.

The code under test is the real, imported Python code.  It is *executed* with
`SymInt` / `SymReal` / `SymBool` objects instead of numbers; every operation
builds a z3 term, and every time Python needs the truth value (or the concrete
integer value) of such a term the context forks the execution.  Forking is done
by re-execution: a path is identified by its list of decisions.
"""
import os
import sys
import time
import math
import operator
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # the solver lives in the verification venv
    sys.path.append(_VT)
    import z3


class EngineStop(BaseException):
    """Base of everything the engine raises through the code under test."""


class Infeasible(EngineStop):
    """The current path condition is unsatisfiable (an assumption cut it)."""


class Unsupported(EngineStop):
    """The code did something the encoding cannot follow."""


class BoundExceeded(EngineStop):
    """A per-path or per-concretisation bound was hit."""


# --------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.checks = 0
        self.trivial = 0

    def as_dict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


FEAS_TIMEOUT = int(os.environ.get("SYMEX_FEAS_MS", "3000"))
CHECK_TIMEOUT = int(os.environ.get("SYMEX_CHECK_MS", "20000"))


class Ctx:
    """One execution path."""

    def __init__(self, prefix, stats):
        self.prefix = prefix            # decisions to replay
        self.taken = []                 # decisions taken so far
        self.pending = []               # sibling prefixes discovered
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", FEAS_TIMEOUT)
        self.pc = []
        self.model = None               # a model of pc, if known
        self.memo = {}
        self.fresh = 0
        self.inputs = {}                # name -> (kind, z3 const)
        self.rules, self.patoms = [], {}  # product facts a*b == polynomial
        self.angles = []                # registered (turn-term, cos, sin)
        self.nonlinear = False
        self.keep = []                  # keep z3 refs alive for memo ids
        self.max_decisions = 4000

    # -- solver ------------------------------------------------------------
    def _timed(self, fn):
        t = time.perf_counter()
        try:
            return fn()
        finally:
            self.stats.solver_s += time.perf_counter() - t
            self.stats.queries += 1

    def add(self, c):
        """Add a fact to the path condition (assumed feasible / definitional)."""
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check(self, *extra):
        r = self._timed(lambda: self.solver.check(*extra))
        if r == z3.unknown:
            r, m = self.strong(list(extra), FEAS_TIMEOUT)
            self._last_model = m
        elif r == z3.sat:
            self._last_model = self.solver.model()
        else:
            self._last_model = None
        return r

    def strong(self, extra, timeout):
        """Non-incremental query (nlsat / portfolio). Returns (result, model)."""
        cons = self.pc + extra
        attempts = []

        def mk(kind):
            if kind == "nra":
                s = z3.Tactic("qfnra-nlsat").solver()
            elif kind == "default":
                s = z3.Solver()
                s.set("smt.random_seed", 7)
            elif kind == "purify":
                s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "smt").solver()
            s.set("timeout", timeout)
            s.add(*cons)
            return s
        for kind in ("nra", "default", "purify"):
            try:
                s = mk(kind)
                r = self._timed(s.check)
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception as e:
                attempts.append(str(e))
        self.stats.unknown += 1
        return z3.unknown, None

    def ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self._last_model
        return self.model

    # -- forking -----------------------------------------------------------
    def _push_decision(self, d):
        self.taken.append(d)
        self.stats.decisions += 1
        if len(self.taken) > self.max_decisions:
            raise BoundExceeded("decisions per path")

    def decide(self, cond):
        """Truth value of z3 Bool `cond` on this path (forks when both possible)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != "b":
                raise Unsupported("non-deterministic re-execution")
            self._push_decision(d)
            if not d[2]:      # d[2]: forced (no fork) -> nothing new to learn
                self.add(cond if d[1] else z3.Not(cond))
            else:
                self.add(cond if d[1] else z3.Not(cond))
            return d[1]
        m = self.ensure_model()
        can_t = can_f = None
        mt = mf = None
        if m is not None:
            v = m.eval(cond, model_completion=True)
            if z3.is_true(v):
                can_t, mt = True, m
            elif z3.is_false(v):
                can_f, mf = True, m
        if can_t is None:
            r = self.check(cond)
            can_t, mt = r != z3.unsat, (self._last_model if r == z3.sat else None)
        if can_f is None:
            r = self.check(z3.Not(cond))
            can_f, mf = r != z3.unsat, (self._last_model if r == z3.sat else None)
        if not can_t and not can_f:
            raise Infeasible()
        choice = bool(can_t)
        forced = not (can_t and can_f)
        if not forced:
            self.pending.append(self.taken + [("b", False, False)])
        self._push_decision(("b", choice, forced))
        self.pc.append(cond if choice else z3.Not(cond))
        self.solver.add(self.pc[-1])
        self.model = mt if choice else mf
        return choice

    def concretize(self, term):
        """Pick a concrete integer for `term`; siblings explore the others."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        n = 0
        while True:
            n += 1
            if n > 400:
                raise BoundExceeded("concretisation fan-out")
            i = len(self.taken)
            if i < len(self.prefix):
                d = self.prefix[i]
                if d[0] != "v":
                    raise Unsupported("non-deterministic re-execution")
                self._push_decision(d)
                eq = term == d[1]
                if d[2]:
                    self.add(eq)
                    return d[1]
                self.add(z3.Not(eq))
                continue
            m = self.ensure_model()
            if m is None:
                raise Unsupported("cannot concretise: solver gave no model")
            v = m.eval(term, model_completion=True)
            v = z3.simplify(v)
            if not z3.is_int_value(v):
                raise Unsupported("concretise: non-integer model value %s" % v)
            v = v.as_long()
            r = self.check(term != v)
            if r != z3.unsat:
                self.pending.append(self.taken + [("v", v, False)])
            self._push_decision(("v", v, True))
            self.pc.append(term == v)
            self.solver.add(term == v)
            return v

    def choose(self, options):
        """Fork over a concrete list of alternatives (a finite symbolic enum)."""
        if len(options) == 1:
            return options[0]
        name = "choice!%d" % self.fresh
        self.fresh += 1
        v = z3.Int(name)
        self.add(z3.And(v >= 0, v < len(options)))
        return options[self.concretize(v)]

    # -- fresh terms -------------------------------------------------------
    def fresh_real(self, hint="r"):
        self.fresh += 1
        return z3.Real("%s!%d" % (hint, self.fresh))

    def fresh_int(self, hint="k"):
        self.fresh += 1
        return z3.Int("%s!%d" % (hint, self.fresh))


_CTX = None


def ctx():
    if _CTX is None:
        raise Unsupported("symbolic operation outside a path")
    return _CTX


def set_ctx(c):
    global _CTX
    _CTX = c


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
import numpy as _np

_NUM = (int, float, Fraction, _np.integer, _np.floating, bool, _np.bool_)


def is_sym(x):
    return type(x) in (SymInt, SymReal, SymBool)


def is_num(x):
    return type(x) in (int, float, bool, Fraction) or isinstance(x, (_np.integer, _np.floating, _np.bool_))


def zconst(x, real):
    """python number -> z3 numeral"""
    if isinstance(x, (bool, _np.bool_)):
        x = int(x)
    if isinstance(x, (int, _np.integer)):
        return z3.RealVal(int(x)) if real else z3.IntVal(int(x))
    if isinstance(x, (float, _np.floating)):
        x = Fraction(float(x))
    return z3.RealVal(x)


def term(x, real=None):
    """z3 arithmetic term for a number-like"""
    t = type(x)
    if t is SymInt:
        return z3.ToReal(x.e) if real else x.e
    if t is SymReal:
        return x.e
    if t is SymBool:
        return z3.If(x.e, zconst(1, real), zconst(0, real))
    if real is None:
        real = not isinstance(x, (bool, int, _np.integer, _np.bool_))
    return zconst(x, real)


def is_intlike(x):
    return type(x) in (SymInt, SymBool) or isinstance(x, (bool, int, _np.integer, _np.bool_)) and type(x) is not SymReal


def _special(o):
    return type(o) not in (SymInt, SymReal, SymBool) and isinstance(o, (float, _np.floating)) and (math.isnan(o) or math.isinf(o))


def wrap(e):
    """z3 term -> python number when constant, else Sym*"""
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    if z3.is_rational_value(e):
        fr = e.as_fraction()
        f = float(fr)
        if Fraction(f) == fr:
            return f
        return SymReal(e)   # keep exact
    return SymReal(e)


def wrap_s(e):
    return wrap(z3.simplify(e))


SA_CLASS = [None]       # filled in by npshim
SYMC_CLASS = [None]
_OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
        "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


class _SymNum:
    __array_ufunc__ = None
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # arithmetic ------------------------------------------------------------
    def _arith(self, o, op, refl=False):
        if type(o) is SymAngleLike:
            return NotImplemented
        if not (is_sym(o) or is_num(o)):
            if isinstance(o, _np.ndarray):
                b = _np.empty((), dtype=object)
                b[()] = self
                b = b.view(SA_CLASS[0])
                o = o.view(SA_CLASS[0]) if o.dtype == object else o
                f = _OPS[op]
                return f(o, b) if refl else f(b, o)
            if isinstance(o, (complex, _np.complexfloating)):
                c = SYMC_CLASS[0]
                return _OPS[op](c.of(o), c.of(self)) if refl else _OPS[op](c.of(self), c.of(o))
            return NotImplemented
        if _special(o):
            return _special_arith(self, float(o), op, refl)
        a, b = (o, self) if refl else (self, o)
        return _binop(op, a, b)

    def __add__(self, o): return self._arith(o, "+")
    def __radd__(self, o): return self._arith(o, "+", True)
    def __sub__(self, o): return self._arith(o, "-")
    def __rsub__(self, o): return self._arith(o, "-", True)
    def __mul__(self, o): return self._arith(o, "*")
    def __rmul__(self, o): return self._arith(o, "*", True)
    def __truediv__(self, o): return self._arith(o, "/")
    def __rtruediv__(self, o): return self._arith(o, "/", True)
    def __floordiv__(self, o): return self._arith(o, "//")
    def __rfloordiv__(self, o): return self._arith(o, "//", True)
    def __mod__(self, o): return self._arith(o, "%")
    def __rmod__(self, o): return self._arith(o, "%", True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def __neg__(self):
        return _binop("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        t = term(self)
        return wrap(z3.If(t >= 0, t, -t))

    def __pow__(self, o):
        if isinstance(o, (float, _np.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, (int, _np.integer)):
            o = int(o)
            if o >= 2 and o % 2 == 0:
                t = term(self)
                if z3.is_app_of(t, z3.Z3_OP_ITE):        # |t| ** 2k == t ** 2k
                    c, a, b = t.children()
                    if c.decl().kind() == z3.Z3_OP_GE and c.arg(0).eq(a) and b.decl().kind() == z3.Z3_OP_UMINUS and b.arg(0).eq(a):
                        return wrap(a) ** o
            if o >= 0:
                r = 1
                for _ in range(o):
                    r = self * r
                return r
            return 1 / (self ** (-o))
        if isinstance(o, float) and o == 0.5:
            return sym_sqrt(self)
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        if type(self) is SymInt:
            return o ** ctx().concretize(self.e)
        raise Unsupported("symbolic exponent")

    # comparison --------------------------------------------------------------
    def _cmp(self, o, op):
        if o is None:
            return NotImplemented
        if isinstance(o, _np.ndarray):
            b = _np.empty((), dtype=object)
            b[()] = self
            return _OPS[op](b.view(SA_CLASS[0]), o)
        if not (is_sym(o) or is_num(o)):
            return NotImplemented
        if _special(o):
            o = float(o)
            if math.isnan(o):
                return op == "!="
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        real = not (is_intlike(self) and is_intlike(o))
        a, b = term(self, real), term(o, real)
        if op == "<":
            r = a < b
        elif op == "<=":
            r = a <= b
        elif op == ">":
            r = a > b
        elif op == ">=":
            r = a >= b
        elif op == "==":
            r = a == b
        else:
            r = a != b
        return wrap_s(r)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        return ctx().decide(term(self) != 0)

    def __hash__(self):
        if type(self) is SymReal:
            return id(self)
        return hash(ctx().concretize(term(self)))

    def __repr__(self):
        return "<sym %s>" % (str(self.e)[:60].replace("\n", " "))

    # conversions used by numpy on object arrays ------------------------------
    def conjugate(self): return self
    def conj(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def sqrt(self): return sym_sqrt(self)
    def cos(self): return sym_cos(self)
    def sin(self): return sym_sin(self)
    def arctan2(self, o): return sym_arctan2(self, o)
    def hypot(self, o): return sym_sqrt(self * self + o * o)
    def arccos(self): return sym_arccos(self)
    def arcsin(self): return sym_arcsin(self)
    def arctan(self): return sym_arctan(self)
    def square(self): return self * self
    def __floor__(self): return sym_floor(self)
    def __ceil__(self): return sym_ceil(self)
    def __trunc__(self): return sym_trunc(self)
    def floor(self): return sym_floor(self)
    def ceil(self): return sym_ceil(self)
    def rint(self): return self.__round__()
    def item(self): return self
    def tolist(self): return self
    def copy(self): return self
    ndim = 0
    shape = ()

    def __round__(self, nd=None):
        if type(self) is SymInt:
            return self
        if nd:
            raise Unsupported("round to digits")
        # banker's rounding
        f = sym_floor(self)
        d = self - f
        fe, de = term(f), term(d, True)
        even = (fe % 2) == 0
        half = zconst(Fraction(1, 2), True)
        return wrap_s(z3.If(de < half, fe, z3.If(de > half, fe + 1, z3.If(even, fe, fe + 1))))


class SymInt(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        v = ctx().concretize(self.e)
        self.e = z3.IntVal(v)       # the path condition now fixes it
        return v

    def __int__(self): return self.__index__()
    def __float__(self): return float(ctx().concretize(self.e))
    def __format__(self, spec): return format(ctx().concretize(self.e), spec)
    def __str__(self): return str(ctx().concretize(self.e))
    def is_integer(self): return True
    def bit_length(self): return ctx().concretize(self.e).bit_length()
    numerator = property(lambda s: s)
    denominator = 1


class SymReal(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __int__(self):
        return int(sym_trunc(self))

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        raise Unsupported("float() of a symbolic real")

    def __format__(self, spec):
        return "<sym>"

    def is_integer(self):
        return wrap_s(z3.IsInt(self.e))


class SymBool(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self): return ctx().decide(self.e)
    def __index__(self): return int(ctx().decide(self.e))
    def __int__(self): return int(ctx().decide(self.e))
    def __float__(self): return float(ctx().decide(self.e))
    def __hash__(self): return hash(bool(self))

    def __and__(self, o): return b_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return b_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return wrap_s(z3.Xor(self.e, bterm(o)))
    __rxor__ = __xor__
    def __invert__(self): return b_not(self)
    def logical_not(self): return b_not(self)

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, (bool, _np.bool_)):
            return wrap_s(self.e == bterm(o))
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self.__eq__(o)
        return b_not(r) if r is not NotImplemented else r

    def all(self, *a, **k): return self
    def any(self, *a, **k): return self


class SymAngleLike:  # placeholder type, never instantiated
    pass


def bterm(x):
    t = type(x)
    if t is SymBool:
        return x.e
    if t in (SymInt, SymReal):
        return term(x) != 0
    return z3.BoolVal(bool(x))


def b_and(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool or type(x) in (SymInt, SymReal):
            ts.append(bterm(x))
        elif not x:
            return False
    if not ts:
        return True
    return wrap_s(z3.And(*ts))


def b_or(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool or type(x) in (SymInt, SymReal):
            ts.append(bterm(x))
        elif x:
            return True
    if not ts:
        return False
    return wrap_s(z3.Or(*ts))


def b_not(x):
    if type(x) in (SymBool, SymInt, SymReal):
        return wrap_s(z3.Not(bterm(x)))
    return not x


def b_implies(a, b):
    return b_or(b_not(a), b)


def ite(c, a, b):
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    if type(a) is SymBool or isinstance(a, (bool, _np.bool_)):
        if type(b) is SymBool or isinstance(b, (bool, _np.bool_)):
            return wrap_s(z3.If(c.e, bterm(a), bterm(b)))
    if not ((is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b))):
        return a if c else b
    if _special(a) or _special(b):
        return a if c else b      # forks
    real = not (is_intlike(a) and is_intlike(b))
    return wrap(z3.If(c.e, term(a, real), term(b, real)))


def smin(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


def smax(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def sabs(x):
    return abs(x)


def _special_arith(s, f, op, refl):
    if math.isnan(f):
        return f
    if op == "+":
        return f
    if op == "-":
        return f if refl else -f
    if op == "/" and not refl:
        return 0.0
    if op == "*" or op == "/":
        # sign dependent
        if bool(s == 0):
            return math.nan if op == "*" else f
        return f if bool(s > 0) else -f
    if op == "%" and not refl:
        return s if f > 0 and bool(s >= 0) else f
    raise Unsupported("inf %s sym" % op)


def _lin_const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def _binop(op, a, b):
    intlike = is_intlike(a) and is_intlike(b)
    if op in "+-*":
        real = not intlike
        # cheap identities keep terms small
        if op == "+":
            if not is_sym(a) and a == 0 and (not real or type(b) is SymReal):
                return b
            if not is_sym(b) and b == 0 and (not real or type(a) is SymReal):
                return a
        elif op == "-":
            if not is_sym(b) and b == 0 and (not real or type(a) is SymReal):
                return a
        elif op == "*":
            for x, y in ((a, b), (b, a)):
                if not is_sym(x):
                    if x == 0:
                        return 0.0 if real else 0
                    if x == 1 and (not real or type(y) is SymReal):
                        return y
        x, y = term(a, real), term(b, real)
        if op == "+":
            return wrap(z3.simplify(x + y)) if real is False else wrap(x + y)
        if op == "-":
            return wrap(z3.simplify(x - y)) if real is False else wrap(x - y)
        return wrap(z3.simplify(x * y)) if real is False else wrap(x * y)
    if op == "/":
        x, y = term(a, True), term(b, True)
        if not is_sym(b):
            if b == 0:
                raise ZeroDivisionError("float division by zero")
            return wrap(x * zconst(1 / Fraction(b), True))
        if bool(wrap_s(y == 0)):
            raise ZeroDivisionError("float division by zero")
        key = ("div", z3.simplify(x).get_id(), z3.simplify(y).get_id())
        c = ctx()
        if key in c.memo:
            return c.memo[key]
        q = c.fresh_real("q")
        c.keep += [x, y, z3.simplify(x), z3.simplify(y)]
        c.add(q * y == x)
        c.nonlinear = True
        c.memo[key] = SymReal(q)
        return c.memo[key]
    if op in ("//", "%"):
        if intlike:
            if type(b) is SymInt or type(b) is SymBool:
                # nonlinear: make the divisor concrete (forks)
                b = ctx().concretize(term(b, False))
            b = int(b)
            if b == 0:
                raise ZeroDivisionError("integer modulo by zero")
            x = term(a, False)
            if b > 0:
                return wrap_s(x / b) if op == "//" else wrap_s(x % b)
            q = wrap_s((-x) / (-b))
            return q if op == "//" else wrap_s(x - term(q, False) * b)
        k = sym_floor(_binop("/", a, b))
        if op == "//":
            return wrap_s(z3.ToReal(term(k, False))) if is_sym(k) else float(k)
        return a - b * k
    raise Unsupported(op)


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
def sym_floor(x):
    if type(x) is SymInt:
        return x
    if not is_sym(x):
        return math.floor(x)
    e = z3.simplify(x.e)
    if z3.is_to_real(e):
        return wrap(e.arg(0))
    c = ctx()
    key = ("floor", e.get_id())
    if key in c.memo:
        return c.memo[key]
    c.keep.append(e)
    k = c.fresh_int("fl")
    c.add(z3.And(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1))
    r = wrap(k)
    c.memo[key] = r
    return r


def sym_ceil(x):
    if type(x) is SymInt:
        return x
    if not is_sym(x):
        return math.ceil(x)
    return -sym_floor(-x)


def sym_trunc(x):
    if type(x) is SymInt:
        return x
    if not is_sym(x):
        return math.trunc(x)
    if bool(x >= 0):
        return sym_floor(x)
    return sym_ceil(x)


def sym_sqrt(x):
    if not is_sym(x):
        if x < 0:
            return math.nan
        return math.sqrt(x)
    c = ctx()
    e = reduce_poly(z3.simplify(term(x, True), som=True))
    if z3.is_rational_value(e):
        return math.sqrt(float(e.as_fraction()))
    key = ("sqrt", e.get_id())
    if key in c.memo:
        return c.memo[key]
    c.keep.append(e)
    root = _monomial_root(e)
    if root is not None:
        if c.check(root < 0) == z3.unsat:
            c.memo[key] = wrap(root)
        elif c.check(root > 0) == z3.unsat:
            c.memo[key] = wrap(z3.simplify(-root))
        else:
            c.memo[key] = sabs(wrap(root))
        return c.memo[key]
    if c.check(e < 0) != z3.unsat:
        if bool(wrap_s(e < 0)):
            return math.nan
    r = c.fresh_real("sqrt")
    c.add(z3.And(r >= 0, r * r == e))
    add_rule(r, r, e)
    c.nonlinear = True
    c.memo[key] = SymReal(r)
    return c.memo[key]


def _monomial_root(e):
    """r with r*r == e if e is a monomial with even powers and a square coefficient"""
    coef, pw, todo = Fraction(1), {}, [e]
    while todo:
        t = todo.pop()
        if z3.is_rational_value(t):
            coef *= t.as_fraction()
        elif z3.is_mul(t):
            todo += t.children()
        elif t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1 and t.arg(1).as_fraction() > 0:
            i = t.arg(0).get_id()
            pw[i] = (t.arg(0), pw.get(i, (0, 0))[1] + int(t.arg(1).as_fraction()))
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_to_real(t):
            i = t.get_id()
            pw[i] = (t, pw.get(i, (0, 0))[1] + 1)
        else:
            return None
    if coef <= 0 or not pw or any(k % 2 for _, k in pw.values()):
        return None
    n, d = math.isqrt(coef.numerator), math.isqrt(coef.denominator)
    if n * n != coef.numerator or d * d != coef.denominator:
        return None
    r = zconst(Fraction(n, d), True)
    for t, k in pw.values():
        for _ in range(k // 2):
            r = r * t
    return r


# -- rewriting with facts of the path (a*b == p for variables a, b) ---------
def _is_var(t):
    return t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0


def add_rule(a, b, p):
    """record the fact a*b == p (already asserted) for reduce_poly"""
    if _is_var(a) and _is_var(b):
        c = ctx()
        q = _poly(z3.simplify(p, som=True), c.patoms)
        if q is not None:
            c.keep += [a, b]
            c.patoms[a.get_id()], c.patoms[b.get_id()] = a, b
            c.rules.append((tuple(sorted((a.get_id(), b.get_id()))), q))


def _pmul(p, q):
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + a * b
    return {k: v for k, v in r.items() if v}


def _poly(t, atoms):
    """{monomial (sorted atom ids): coefficient} of a sum of monomials, or None"""
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return {(): f} if f else {}
    if z3.is_add(t):
        r = {}
        for x in t.children():
            p = _poly(x, atoms)
            if p is None:
                return None
            for k, v in p.items():
                r[k] = r.get(k, 0) + v
        return {k: v for k, v in r.items() if v}
    if z3.is_mul(t):
        r = {(): Fraction(1)}
        for x in t.children():
            p = _poly(x, atoms)
            if p is None:
                return None
            r = _pmul(r, p)
        return r
    if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1 and 0 < t.arg(1).as_fraction() <= 8:
        p = _poly(t.arg(0), atoms)
        r = {(): Fraction(1)}
        for _ in range(int(t.arg(1).as_fraction())):
            if p is None:
                return None
            r = _pmul(r, p)
        return r
    if _is_var(t) or z3.is_to_real(t):
        atoms[t.get_id()] = t
        return {(t.get_id(),): Fraction(1)}
    return None


def reduce_poly(t):
    """t rewritten with the recorded product facts; t itself where nothing applies"""
    c = ctx()
    if not c.rules or z3.is_rational_value(t):
        return t
    p = _poly(t, c.patoms)
    if p is None or len(p) > 60:
        return t
    hit = False
    for _ in range(200):
        todo = None
        for m in p:
            for (a, b), q in c.rules:
                i = m.index(a) if a in m else -1
                if i < 0:
                    continue
                rest = m[:i] + m[i + 1:]
                if b in rest:
                    j = rest.index(b)
                    todo = (m, rest[:j] + rest[j + 1:], q)
                    break
            if todo:
                break
        if not todo:
            break
        hit = True
        m, rest, q = todo
        k = p.pop(m)
        for n, v in _pmul({rest: k}, q).items():
            p[n] = p.get(n, 0) + v
            if not p[n]:
                del p[n]
        if len(p) > 200:
            return t
    if not hit:
        return t
    r = zconst(Fraction(0), True)
    parts = []
    for m, v in sorted(p.items()):
        x = zconst(v, True)
        for i in m:
            x = x * c.patoms[i]
        parts.append(x)
    return z3.simplify(z3.Sum(parts), som=True) if parts else r


_TWO_PI = Fraction(2 * math.pi)


def _angle(x):
    """(cos, sin) terms of angle x (radians); periodic and Pythagorean axioms."""
    c = ctx()
    t = z3.simplify(term(x, True) * zconst(1 / _TWO_PI, True), som=True)
    key = ("ang", t.get_id())
    if key in c.memo:
        return c.memo[key]
    c.keep.append(t)
    if z3.is_rational_value(t):
        a = float(t.as_fraction() * _TWO_PI)
        cs = (zconst(math.cos(a), True), zconst(math.sin(a), True))
    else:
        co, si = c.fresh_real("cos"), c.fresh_real("sin")
        c.add(co * co + si * si == 1)
        add_rule(co, co, 1 - si * si)
        c.add(z3.And(co <= 1, co >= -1, si <= 1, si >= -1))
        c.nonlinear = True
        cs = (co, si)
    for (t2, c2, s2) in c.angles:
        d = z3.simplify(t - t2, som=True)
        if z3.is_rational_value(d):
            if d.as_fraction().denominator == 1:
                c.add(z3.And(cs[0] == c2, cs[1] == s2))
            elif (d.as_fraction() * 2).denominator == 1:
                c.add(z3.And(cs[0] == -c2, cs[1] == -s2))
            continue
        if z3.is_rational_value(t) and z3.is_rational_value(t2):
            continue
        k = c.fresh_int("turn")
        c.add(z3.And(z3.ToReal(k) <= d, d < z3.ToReal(k) + 1))
        c.add(z3.Implies(d == z3.ToReal(k), z3.And(cs[0] == c2, cs[1] == s2)))
    c.angles.append((t, cs[0], cs[1]))
    c.memo[key] = cs
    return cs


def sym_cos(x):
    if not is_sym(x):
        return math.cos(x)
    return wrap(_angle(x)[0])


def sym_sin(x):
    if not is_sym(x):
        return math.sin(x)
    return wrap(_angle(x)[1])


def sym_arctan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return math.atan2(y, x)
    c = ctx()
    ye, xe = z3.simplify(term(y, True)), z3.simplify(term(x, True))
    key = ("atan2", ye.get_id(), xe.get_id())
    if key in c.memo:
        return c.memo[key]
    c.keep += [ye, xe]
    th = c.fresh_real("atan")
    r = sym_sqrt(wrap(xe * xe + ye * ye))
    th_s = SymReal(th)
    co, si = _angle(th_s)
    rt = term(r, True)
    pi = zconst(math.pi, True)
    c.add(z3.And(rt * co == xe, rt * si == ye, th <= pi, th >= -pi,
                 z3.Implies(ye > 0, z3.And(th > 0, th < pi)),
                 z3.Implies(ye < 0, z3.And(th < 0, th > -pi)),
                 z3.Implies(z3.And(ye == 0, xe >= 0), th == 0),
                 z3.Implies(z3.And(ye == 0, xe < 0), th == pi)))
    add_rule(rt, co, xe)
    add_rule(rt, si, ye)
    c.nonlinear = True
    c.memo[key] = th_s
    return th_s


def sym_arccos(x):
    if not is_sym(x):
        return math.acos(x) if -1 <= x <= 1 else math.nan
    if x < -1 or x > 1:
        return math.nan
    return sym_arctan2(sym_sqrt(1 - x * x), x)


def sym_arcsin(x):
    if not is_sym(x):
        return math.asin(x) if -1 <= x <= 1 else math.nan
    if x < -1 or x > 1:
        return math.nan
    return sym_arctan2(x, sym_sqrt(1 - x * x))


def sym_arctan(x):
    return sym_arctan2(x, 1.0)


def uf(name, *args):
    """Uninterpreted real function, memoised by argument terms (congruent through solver)."""
    c = ctx()
    if not any(is_sym(a) for a in args):
        args = tuple(args)
    f = c.memo.get(("uf", name, len(args)))
    if f is None:
        f = z3.Function(name, *([z3.RealSort()] * len(args)), z3.RealSort())
        c.memo[("uf", name, len(args))] = f
    return SymReal(f(*[term(a, True) for a in args]))
