"""A numpy stand-in whose arrays hold Python/symbolic objects.

`SA` is an object-dtype ndarray subclass.  Indexing, slicing, views, broadcasting,
concatenation etc. are numpy's own; only the element arithmetic, comparisons and
value-dependent functions are re-implemented so that they build z3 terms.
"""
import math
import types
import builtins
from fractions import Fraction
import numpy as np
from . import sym as Y
from .sym import (SymInt, SymReal, SymBool, is_sym, is_num, b_and, b_or, b_not, ite,
                  Unsupported, ctx)

_HANDLED = {}


def _kind_of_dtype(dtype):
    if dtype is None:
        return None
    if dtype in (int, "int") or dtype is np.int64 or dtype is np.int32:
        return "i"
    if dtype in (bool, "bool") or dtype is np.bool_:
        return "b"
    if dtype in (complex, "complex") or dtype is np.complex128:
        return "c"
    if dtype in (float, "float", object) or dtype is np.float64:
        return None
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return None
    return {"i": "i", "u": "i", "b": "b", "c": "c"}.get(k)


def _to_int(x):
    if type(x) is SymInt or isinstance(x, (int, np.integer)) and not is_sym(x):
        return x
    if type(x) is SymBool:
        return ite(x, 1, 0)
    if type(x) is SymReal:
        return Y.sym_trunc(x)
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    f = float(x)
    if math.isnan(f) or math.isinf(f):
        return -9223372036854775808
    return math.trunc(f)


def _to_bool(x):
    if is_sym(x):
        return Y.wrap_s(Y.bterm(x))
    return builtins.bool(x)


def _to_float(x):
    if type(x) is SymInt or type(x) is SymBool:
        return SymReal(Y.term(x, True))
    if is_num(x) and not is_sym(x):
        return float(x)
    return x


_CAST = {"i": _to_int, "b": _to_bool}


class SymC:
    """complex number with symbolic parts"""
    __slots__ = ("re", "im")
    __array_priority__ = 2000

    def __init__(self, re, im):
        self.re, self.im = re, im

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(float(x.real), float(x.imag))
        if is_sym(x) or is_num(x):
            return SymC(x, 0.0)
        return None

    def __add__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self): return SymC(-self.re, -self.im)
    def __pos__(self): return self

    def __sub__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        return SymC((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def conjugate(self): return SymC(self.re, -self.im)

    def __eq__(self, o):
        o = SymC.of(o)
        if o is None:
            return False
        return Y.wrap_s(Y.z3.And(Y.bterm(_cmp(self.re, o.re)), Y.bterm(_cmp(self.im, o.im))))

    __hash__ = None

    def __abs__(self):
        return Y.sym_sqrt(self.re * self.re + self.im * self.im)


def _cmp(a, b):
    r = a == b
    return r if is_sym(r) else builtins.bool(r)


def _conj1(x):
    return x.conjugate() if isinstance(x, (SymC, complex)) else x


def _re1(x):
    return x.real if isinstance(x, (SymC, complex)) else x


def _im1(x):
    return x.imag if isinstance(x, (SymC, complex)) else 0.0


def dft(a, n=None, axis=-1, norm=None, half=False):
    """np.fft.fft / rfft by definition (sizes are concrete)"""
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    a = asarray(a)
    n = a.shape[axis] if n is None else n.__index__()
    x = np.moveaxis(a.view(np.ndarray), axis, -1)
    m = n // 2 + 1 if half else n
    out = np.empty(x.shape[:-1] + (m,), dtype=object)
    for idx in np.ndindex(*x.shape[:-1]):
        v = x[idx]
        for k in range(m):
            acc = SymC(0.0, 0.0)
            for t in range(builtins.min(n, x.shape[-1])):
                q = (k * t * 4) % (4 * n)
                if q % n == 0:                  # exact multiples of a quarter turn
                    c, s = ((1.0, 0.0), (0.0, -1.0), (-1.0, 0.0), (0.0, 1.0))[q // n]
                else:
                    w = 2 * math.pi * ((k * t) % n) / n
                    c, s = math.cos(w), -math.sin(w)
                acc = acc + SymC.of(v[t]) * SymC(c, s)
            out[idx + (k,)] = acc
    return np.moveaxis(out, -1, axis).view(SA)


def idft(a, n=None, axis=-1, norm=None, half=False):
    """np.fft.ifft / irfft by definition (sizes are concrete)"""
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    a = asarray(a)
    m = a.shape[axis]
    if n is None:
        n = 2 * (m - 1) if half else m
    n = n.__index__()
    x = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(x.shape[:-1] + (n,), dtype=object)
    for idx in np.ndindex(*x.shape[:-1]):
        v = [SymC.of(t) for t in x[idx]]
        if half:
            need = n // 2 + 1
            v = (v + [SymC(0.0, 0.0)] * need)[:need]
            v[0] = SymC(v[0].real, 0.0)
            if n % 2 == 0:
                v[-1] = SymC(v[-1].real, 0.0)
            v = v + [v[n - k].conjugate() for k in range(need, n)]
        else:
            v = (v + [SymC(0.0, 0.0)] * n)[:n]
        for t in range(n):
            acc = SymC(0.0, 0.0)
            for k in range(n):
                q = (k * t * 4) % (4 * n)
                if q % n == 0:
                    c, s = ((1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0))[q // n]
                else:
                    w = 2 * math.pi * ((k * t) % n) / n
                    c, s = math.cos(w), math.sin(w)
                acc = acc + v[k] * SymC(c, s)
            out[idx + (t,)] = (acc.real if half else acc) / n
    return np.moveaxis(out, -1, axis).view(SA)


class SA(np.ndarray):
    """Object array of concrete / symbolic scalars."""
    _k = None

    def __array_finalize__(self, obj):
        self._k = getattr(obj, "_k", None)

    # ---- indexing -------------------------------------------------------
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, conv_key(key, self))
        if isinstance(r, np.ndarray) and not isinstance(r, SA):
            r = r.view(SA)
        return r

    def __setitem__(self, key, val):
        key = conv_key(key, self)
        if isinstance(val, (list, tuple)):
            val = array(val)
        if isinstance(val, np.ndarray):
            val = val.view(np.ndarray)
            if val.dtype != object:
                val = val.astype(object)
            if self._k in _CAST:
                val = _map(_CAST[self._k], val)
            np.ndarray.__setitem__(self.view(np.ndarray), key, val)
            return
        if self._k in _CAST and (is_sym(val) or is_num(val)):
            val = _CAST[self._k](val)
        base = self.view(np.ndarray)
        tgt = np.ndarray.__getitem__(base, key)
        if isinstance(tgt, np.ndarray) and tgt.dtype == object:
            box = np.empty((), dtype=object)
            box[()] = val
            np.ndarray.__setitem__(base, key, box)
        else:
            np.ndarray.__setitem__(base, key, val)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return builtins.bool(self.reshape(-1)[0])

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, x):
        return builtins.bool(any_(self == x))

    def __float__(self): return self._one().__float__()
    def __int__(self): return int(self._one())
    def __index__(self): return self._one().__index__()

    def _one(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return self.reshape(-1)[0]

    def item(self, *a):
        if a:
            return self.reshape(-1)[a[0]] if len(a) == 1 else self[a]
        return self._one()

    def tolist(self):
        if self.ndim == 0:
            return self._one()
        return [x.tolist() if isinstance(x, np.ndarray) else x for x in self]

    # ---- methods --------------------------------------------------------
    def astype(self, dtype, *a, **k):
        kd = _kind_of_dtype(dtype)
        if kd == "i":
            r = _map(_to_int, self).view(SA)
        elif kd == "b":
            r = _map(_to_bool, self).view(SA)
        elif dtype is object:
            r = self.copy()
        else:
            r = _map(_to_float, self).view(SA)
            kd = None
        r._k = kd
        return r

    def sum(self, axis=None, keepdims=False, **k): return sum_(self, axis, keepdims=keepdims)
    def mean(self, axis=None, keepdims=False, **k): return mean(self, axis, keepdims=keepdims)
    def prod(self, axis=None, **k): return prod(self, axis)
    def min(self, axis=None, **k): return min_(self, axis)
    def max(self, axis=None, **k): return max_(self, axis)
    def argmax(self, axis=None, **k): return argmax(self, axis)
    def argmin(self, axis=None, **k): return argmin(self, axis)
    def argsort(self, axis=-1, **k): return argsort(self, axis)
    def all(self, axis=None, **k): return all_(self, axis)
    def any(self, axis=None, **k): return any_(self, axis)
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def cumprod(self, axis=None, **k): return cumprod(self, axis)
    def var(self, axis=None, **k): return var(self, axis, **k)
    def std(self, axis=None, **k): return std(self, axis, **k)
    def conj(self): return _map(_conj1, self).view(SA)
    conjugate = conj
    def nonzero(self): return nonzero(self)
    def fill(self, v): self[...] = v
    def round(self, decimals=0, out=None): return round_(self, decimals)
    def dot(self, o): return dot(self, o)
    def clip(self, lo, hi): return clip(self, lo, hi)
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)
    @property
    def real(self): return _map(_re1, self).view(SA)
    @property
    def imag(self): return _map(_im1, self).view(SA)

    # ---- ufuncs ---------------------------------------------------------
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        out = kw.pop("out", None)
        where_ = kw.pop("where", True)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("subok", None)
        ins = [_base(x) for x in inputs]
        name = uf.__name__
        if method == "__call__":
            f = ELEM.get(name)
            if f is None:
                raise Unsupported("ufunc %s" % name)
            r = f(*ins)
            if isinstance(r, np.ndarray) and r.ndim:
                r = r.view(SA)
                r._k = "b" if is_cmp(name) else "i" if name in _INT_OPS and builtins.all(_int_like(x) for x in inputs) else None
        elif method == "reduce":
            red = {"add": sum_, "multiply": prod, "logical_and": all_, "logical_or": any_,
                   "minimum": min_, "maximum": max_}.get(name)
            if red is None:
                raise Unsupported("reduce %s" % name)
            ax = kw.get("axis", 0)
            r = red(ins[0], ax, keepdims=kw.get("keepdims", False)) if kw.get("keepdims") else red(ins[0], ax)
            if kw.get("initial") is not None and name == "add":
                r = r + kw["initial"]
        elif method == "accumulate" and name == "add":
            r = cumsum(ins[0], kw.get("axis", 0))
        elif method == "accumulate" and name in ELEM:
            r = _accumulate(ins[0], kw.get("axis", 0), lambda x, y: ELEM[name](x, y))
        elif method == "outer":
            a, b = asarray(ins[0]), asarray(ins[1])
            r = ELEM[name](a.reshape(a.shape + (1,) * b.ndim).view(np.ndarray), b.view(np.ndarray))
        else:
            raise Unsupported("ufunc method %s.%s" % (name, method))
        if out is not None:
            o = out[0]
            if where_ is not True:
                r = where(where_, r, o)
            if isinstance(o, SA):
                if o._k in ("i", "b") and _has_float(r) and not is_cmp(name):
                    raise TypeError("Cannot cast ufunc '%s' output from float64 to int64" % name)
                o[...] = r
                return o
            if o.dtype == object:
                o[...] = _base(r)
                return o.view(SA)
            return r      # augmented assignment on a native array: rebind
        if isinstance(r, np.ndarray):
            if r.ndim == 0:
                return r.item()
            r = r.view(SA)
        return r

    def __array_function__(self, func, types, args, kwargs):
        h = _HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        if func in _PASS:
            r = func(*_rebase(args), **_rebase(kwargs))
            return _rewrap(r)
        name = getattr(func, "__name__", "?")
        if name not in ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis") and "out" not in kwargs:
            return native_call(func, "numpy function " + name)(*args, **kwargs)
        raise Unsupported("numpy function %s" % name)


def _box0(x):
    b = np.empty((), dtype=object)
    b[()] = x
    return b.view(SA)


def _install_ops():
    def mk(nm):
        base = getattr(np.ndarray, nm)

        def op(self, o):
            if is_sym(o):
                o = _box0(o)
            elif isinstance(o, (list, tuple)):
                o = array(o)
            return base(self, o)
        op.__name__ = nm
        return op
    for nm in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
        for pre in ("__", "__r", "__i"):
            n = pre + nm + "__"
            if hasattr(np.ndarray, n):
                setattr(SA, n, mk(n))
    for nm in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "__and__", "__or__", "__xor__", "__rand__", "__ror__"):
        setattr(SA, nm, mk(nm))
    SA.__hash__ = None


_install_ops()
Y.SA_CLASS[0] = SA
Y.SYMC_CLASS[0] = SymC


_INT_OPS = ("add", "subtract", "multiply", "floor_divide", "remainder", "negative", "absolute", "minimum", "maximum", "square")


def _int_like(x):
    if isinstance(x, SA):
        return x._k in ("i", "b")
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "iub" or (x.dtype == object and x.size == 1 and _int_like(x.reshape(-1)[0]))
    return isinstance(x, (builtins.bool, builtins.int, np.integer)) or type(x) in (SymInt, SymBool)


def is_cmp(name):
    return name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
                    "logical_and", "logical_or", "logical_not")


def _has_float(r):
    if isinstance(r, np.ndarray):
        return builtins.any(_has_float(x) for x in r.reshape(-1).tolist()) if r.dtype == object else r.dtype.kind == "f"
    return type(r) is SymReal or (isinstance(r, (float, np.floating)) and not is_sym(r))


def _rebase(x):
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(_rebase(i) for i in x)
    if isinstance(x, dict):
        return {k: _rebase(v) for k, v in x.items()}
    return x


def _rewrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object or r.dtype.kind in "fiub":
            return native_to_sa(r)
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(i) for i in r)
    return r


def native_to_sa(a):
    if isinstance(a, SA):
        return a
    k = {"i": "i", "u": "i", "b": "b"}.get(a.dtype.kind)
    r = (a if a.dtype == object else a.astype(object)).view(SA)
    r._k = k
    return r


def _base(x):
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        return array(x).view(np.ndarray)
    return x


def _map(f, a):
    a = _base(a)
    if not isinstance(a, np.ndarray):
        return f(a)
    out = np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in range(fi.shape[0]):
        fo[i] = f(fi[i])
    return out if out.flags["C_CONTIGUOUS"] else fo.reshape(a.shape)


def _map2(f, a, b):
    a, b = _base(a), _base(b)
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return f(a, b)
    A = a if isinstance(a, np.ndarray) else _box(a)
    B = b if isinstance(b, np.ndarray) else _box(b)
    bc = np.broadcast(A, B)
    out = np.empty(bc.shape, dtype=object)
    fo = out.reshape(-1)
    for i, (x, y) in enumerate(bc):
        fo[i] = f(x, y)
    return out


def _box(x):
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def conv_key(key, arr=None):
    if isinstance(key, tuple):
        return tuple(conv_key(k) for k in key)
    if isinstance(key, np.ndarray):
        if key.dtype == object:
            flat = key.view(np.ndarray).reshape(-1)
            if flat.shape[0] == 0:
                return np.zeros(key.shape, dtype=builtins.bool if getattr(key, "_k", None) == "b" else int)
            isb = all_types(flat, (SymBool, builtins.bool, np.bool_))
            if isb:
                return np.array([builtins.bool(x) for x in flat], dtype=builtins.bool).reshape(key.shape)
            r = []
            for x in flat:
                if type(x) is SymReal or isinstance(x, float):
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                r.append(x.__index__())
            return np.array(r, dtype=int).reshape(key.shape)
        return key
    if type(key) is SymBool:
        return builtins.bool(key)
    if type(key) is SymInt:
        return key.__index__()
    if type(key) is SymReal:
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(key, slice):
        def c(v):
            if v is None:
                return None
            if isinstance(v, SA):
                v = v._one()
            if type(v) is SymReal:
                raise TypeError("slice indices must be integers or None or have an __index__ method")
            return v.__index__()
        return slice(c(key.start), c(key.stop), c(key.step))
    if isinstance(key, (list,)):
        return conv_key(array(key)) if len(key) else key
    return key


def all_types(seq, types):
    for x in seq:
        if type(x) not in types:
            return False
    return True


# ---- elementwise ----------------------------------------------------------
def _safe_div(a, b):
    if not is_sym(b) and is_num(b) and b == 0:
        if not is_sym(a):
            a = float(a)
            if a == 0 or math.isnan(a):
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, float(b))
        if builtins.bool(a == 0):
            return math.nan
        return math.inf if builtins.bool(a > 0) else -math.inf
    if is_sym(b):
        z = (b == 0)
        if z is True or (type(z) is SymBool and builtins.bool(z)):
            return _safe_div(a, 0.0)
    return a / b


def _safe_mod(a, b):
    if not is_sym(b) and b == 0:
        return math.nan
    return a % b


def _safe_fdiv(a, b):
    if not is_sym(b) and b == 0:
        return math.nan
    return a // b


def _c(fn, symfn):
    def g(x):
        if is_sym(x):
            return symfn(x)
        if isinstance(x, SymC):
            return _csym(fn, symfn, x)
        if isinstance(x, (complex, np.complexfloating)):
            f = getattr(np, fn.__name__, None)
            if f is None:
                raise Unsupported("complex")
            return complex(f(x))
        try:
            return fn(x)
        except (ValueError, OverflowError):
            return math.nan
    return g


def _csym(fn, symfn, x):
    if fn is not math.exp:
        raise Unsupported("complex")
    im, re = x.im, x.re
    c, s = (Y.sym_cos(im), Y.sym_sin(im)) if is_sym(im) else (math.cos(im), math.sin(im))
    m = symfn(re) if is_sym(re) else math.exp(re)
    return SymC(m * c, m * s)


def _uf1(name, fn):
    return _c(fn, lambda x: Y.uf(name, x))


def _isnan(x):
    return False if is_sym(x) else (isinstance(x, (float, np.floating)) and math.isnan(x))


def _isinf(x):
    return False if is_sym(x) else (isinstance(x, (float, np.floating)) and math.isinf(x))


def _pow(a, b):
    if not is_sym(a) and not is_sym(b):
        try:
            return a ** b
        except ZeroDivisionError:
            return math.inf
    return a ** b


def _sign(x):
    if is_sym(x):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return (x > 0) - (x < 0)


def _log10(x):
    return math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def _log(x):
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def _m1(f):
    return lambda a: _map(f, a)


def _m2(f):
    return lambda a, b: _map2(f, a, b)


ELEM = {
    "add": _m2(lambda a, b: a + b),
    "subtract": _m2(lambda a, b: a - b),
    "multiply": _m2(lambda a, b: a * b),
    "divide": _m2(_safe_div),
    "true_divide": _m2(_safe_div),
    "floor_divide": _m2(_safe_fdiv),
    "remainder": _m2(_safe_mod),
    "mod": _m2(_safe_mod),
    "power": _m2(_pow),
    "float_power": _m2(_pow),
    "negative": _m1(lambda a: -a),
    "positive": _m1(lambda a: a),
    "absolute": _m1(abs),
    "fabs": _m1(abs),
    "square": _m1(lambda a: a * a),
    "sqrt": _m1(Y.sym_sqrt),
    "cos": _m1(Y.sym_cos),
    "sin": _m1(Y.sym_sin),
    "arctan2": _m2(Y.sym_arctan2),
    "arccos": _m1(Y.sym_arccos),
    "arcsin": _m1(Y.sym_arcsin),
    "arctan": _m1(Y.sym_arctan),
    "hypot": _m2(lambda a, b: Y.sym_sqrt(a * a + b * b)),
    "floor": _m1(lambda a: _to_float(Y.sym_floor(a)) if not _isnan(a) and not _isinf(a) else a),
    "ceil": _m1(lambda a: _to_float(Y.sym_ceil(a)) if not _isnan(a) and not _isinf(a) else a),
    "trunc": _m1(lambda a: _to_float(Y.sym_trunc(a))),
    "rint": _m1(lambda a: _to_float(round(a))),
    "sign": _m1(_sign),
    "reciprocal": _m1(lambda a: _safe_div(1.0, a)),
    "exp": _m1(_uf1("exp", math.exp)),
    "log": _m1(_uf1("log", _log)),
    "log10": _m1(_uf1("log10", _log10)),
    "isnan": _m1(_isnan),
    "isinf": _m1(_isinf),
    "isfinite": _m1(lambda x: not (_isnan(x) or _isinf(x))),
    "conjugate": _m1(_conj1),
    "less": _m2(lambda a, b: a < b),
    "less_equal": _m2(lambda a, b: a <= b),
    "greater": _m2(lambda a, b: a > b),
    "greater_equal": _m2(lambda a, b: a >= b),
    "equal": _m2(lambda a, b: a == b),
    "not_equal": _m2(lambda a, b: a != b),
    "logical_and": _m2(lambda a, b: b_and(_to_bool(a), _to_bool(b))),
    "logical_or": _m2(lambda a, b: b_or(_to_bool(a), _to_bool(b))),
    "logical_not": _m1(lambda a: b_not(_to_bool(a))),
    "logical_xor": _m2(lambda a, b: Y.wrap_s(Y.z3.Xor(Y.bterm(a), Y.bterm(b)))),
    "bitwise_and": _m2(lambda a, b: a & b),
    "bitwise_or": _m2(lambda a, b: a | b),
    "bitwise_xor": _m2(lambda a, b: a ^ b),
    "invert": _m1(lambda a: b_not(a) if type(a) is SymBool or isinstance(a, (bool, np.bool_)) else ~a),
    "minimum": _m2(lambda a, b: ite(b < a, b, a)),
    "maximum": _m2(lambda a, b: ite(b > a, b, a)),
    "fmin": _m2(lambda a, b: ite(b < a, b, a)),
    "fmax": _m2(lambda a, b: ite(b > a, b, a)),
    "deg2rad": _m1(lambda a: a * (math.pi / 180)),
    "rad2deg": _m1(lambda a: a * (180 / math.pi)),
    "radians": _m1(lambda a: a * (math.pi / 180)),
    "degrees": _m1(lambda a: a * (180 / math.pi)),
}


def _ufunc(name):
    f = ELEM[name]
    real = getattr(np, name)

    def g(*args, out=None, where=True, **kw):
        if out is not None or where is not True:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SA):
                return o.__array_ufunc__(real, "__call__", *args, out=(o,), where=where)
        r = f(*args)
        if isinstance(r, np.ndarray):
            if r.ndim == 0:
                return r.item()
            return r.view(SA)
        return r
    g.__name__ = name

    def reduce(a, axis=0, **k):
        return asarray(a).__array_ufunc__(real, "reduce", asarray(a), axis=axis, **k)

    def accumulate(a, axis=0, **k):
        return asarray(a).__array_ufunc__(real, "accumulate", asarray(a), axis=axis, **k)

    def outer(a, b, **k):
        return asarray(a).__array_ufunc__(real, "outer", asarray(a), asarray(b))
    g.reduce, g.accumulate, g.outer = reduce, accumulate, outer
    return g


# ---- constructors ---------------------------------------------------------
def _shape(s):
    if isinstance(s, np.ndarray):
        s = s.tolist()
    if isinstance(s, (list, tuple)):
        return tuple(_dim(i) for i in s)
    return (_dim(s),)


def _dim(i):
    if isinstance(i, SA):
        i = i._one()
    if type(i) is SymReal or isinstance(i, (float, np.floating)) and not is_sym(i):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return i.__index__()


def full(shape, fill_value, dtype=None, order=None, **k):
    r = np.empty(_shape(shape), dtype=object).view(SA)
    kd = _kind_of_dtype(dtype)
    if kd is None and dtype is None and not is_sym(fill_value):
        if isinstance(fill_value, (bool, np.bool_)):
            kd = "b"
        elif isinstance(fill_value, (int, np.integer)):
            kd = "i"
    r._k = kd
    r[...] = fill_value
    return r


def zeros(shape, dtype=None, order=None, **k):
    kd = _kind_of_dtype(dtype)
    r = np.empty(_shape(shape), dtype=object).view(SA)
    r.view(np.ndarray).fill(0 if kd == "i" else False if kd == "b" else 0.0)
    r._k = kd
    return r


def ones(shape, dtype=None, order=None, **k):
    kd = _kind_of_dtype(dtype)
    r = np.empty(_shape(shape), dtype=object).view(SA)
    r.view(np.ndarray).fill(1 if kd == "i" else True if kd == "b" else 1.0)
    r._k = kd
    return r


def _like(fn):
    def g(a, dtype=None, shape=None, **k):
        a = asarray(a)
        r = fn(a.shape if shape is None else shape)
        kd = _kind_of_dtype(dtype) if dtype is not None else a._k
        if kd in _CAST:
            r = _map(_CAST[kd], r).view(SA)
        r._k = kd
        return r
    return g


def full_like(a, fill_value, dtype=None, **k):
    a = asarray(a)
    r = zeros(a.shape)
    r._k = _kind_of_dtype(dtype) if dtype is not None else a._k
    r[...] = fill_value
    return r


def eye(N, M=None, k=0, dtype=None, **kw):
    return native_to_sa(np.eye(_dim(N), None if M is None else _dim(M), k))


def _flat_kind(flat):
    hi = "b"
    for x in flat:
        t = type(x)
        if t in (SymBool, bool, np.bool_):
            continue
        if t is SymInt or (isinstance(x, (int, np.integer)) and t is not SymReal):
            hi = "i"
        else:
            return None
    return hi if len(flat) else None


def array(obj, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(obj, SA):
        r = obj.copy() if copy else obj
        if dtype is not None:
            r = r.astype(dtype)
    elif isinstance(obj, np.ndarray):
        r = native_to_sa(obj.copy() if copy else obj)
        if dtype is not None:
            r = r.astype(dtype)
    else:
        r = _build(obj)
        if dtype is None:
            r._k = _flat_kind(r.view(np.ndarray).reshape(-1))
            if r._k is None:
                r = _map(_to_float, r).view(SA) if not _any_obj(r) else r
        else:
            r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _any_obj(r):
    for x in r.view(np.ndarray).reshape(-1):
        if not (is_sym(x) or is_num(x)):
            return True
    return False


def _build(obj):
    def shp(o):
        if isinstance(o, np.ndarray):
            return o.shape
        if isinstance(o, (list, tuple, range)):
            if len(o) == 0:
                return (0,)
            ss = [shp(i) for i in o]
            if builtins.any(s != ss[0] for s in ss):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
            return (len(o),) + ss[0]
        return ()

    def fl(o, acc):
        if isinstance(o, np.ndarray):
            acc.extend(_base(o).reshape(-1).tolist() if o.dtype != object else list(o.view(np.ndarray).reshape(-1)))
        elif isinstance(o, (list, tuple, range)):
            for i in o:
                fl(i, acc)
        else:
            acc.append(o)
    if isinstance(obj, types.GeneratorType):
        obj = list(obj)
    s = shp(obj)
    acc = []
    fl(obj, acc)
    out = np.empty(len(acc), dtype=object)
    for i, x in enumerate(acc):
        if isinstance(x, np.generic):
            x = x.item()
        out[i] = x
    return out.reshape(s).view(SA)


def asarray(a, dtype=None, **k):
    if isinstance(a, SA) and dtype is None:
        return a
    return array(a, dtype=dtype, copy=False)


def arange(*args, dtype=None, **k):
    vals = [a._one() if isinstance(a, SA) else a for a in args]
    if not builtins.any(is_sym(v) for v in vals):
        return native_to_sa(np.arange(*vals, dtype=dtype))
    if len(vals) == 1:
        start, stop, step = 0, vals[0], 1
    elif len(vals) == 2:
        start, stop, step = vals[0], vals[1], 1
    else:
        start, stop, step = vals
    n = Y.sym_ceil(_safe_div(stop - start, step) if not (Y.is_intlike(stop - start) and step == 1) else stop - start)
    n = max(0, n.__index__())
    if len(vals) == 1 and type(stop) is SymReal and Y.ctx().check(Y.term(stop, True) != n) == Y.z3.unsat:
        stop.e = Y.z3.RealVal(n)        # the path condition now fixes it
    r = np.empty(n, dtype=object).view(SA)
    for i in range(n):
        r.view(np.ndarray)[i] = start + i * step
    r._k = _flat_kind(r.view(np.ndarray)) if n else None
    if dtype is not None:
        r = r.astype(dtype)
    return r


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = _dim(num)
    div = (n - 1) if endpoint else n
    step = _safe_div(stop - start, div) if div > 0 else math.nan
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = _to_float(start + i * step) if i else _to_float(start + 0.0)
    if endpoint and n > 1:
        r[-1] = _to_float(stop)
    r = r.view(SA)
    return (r, step) if retstep else r


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    return [native_to_sa(a) for a in np.meshgrid(*[_base(asarray(x)) for x in xs], indexing=indexing)]


# ---- reductions -------------------------------------------------------------
def _reduce(a, axis, f, init, keepdims=False):
    a = _base(asarray(a))
    if axis is None:
        acc = init
        for x in a.reshape(-1):
            acc = x if acc is _NONE else f(acc, x)
        if acc is _NONE:
            raise ValueError("zero-size array to reduction operation which has no identity")
        if keepdims:
            return full((1,) * a.ndim, acc)
        return acc
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = _base(_reduce(a, ax, f, init, keepdims))
        return native_to_sa(a) if isinstance(a, np.ndarray) else a
    axis = _dim(axis) % builtins.max(a.ndim, 1)
    if a.ndim == 0:
        return a.item()
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        acc = init
        for x in m[idx]:
            acc = x if acc is _NONE else f(acc, x)
        if acc is _NONE:
            raise ValueError("zero-size array to reduction operation which has no identity")
        out[idx] = acc
    if keepdims:
        return np.expand_dims(out, axis).view(SA)
    if out.ndim == 0:
        return out.item()
    return out.view(SA)


class _None:
    pass


_NONE = _None()


def _kinded(a, r):
    if isinstance(r, SA) and getattr(a, "_k", None) in ("i", "b"):
        r._k = "i"
    return r


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    a = asarray(a)
    z = 0 if a._k in ("i", "b") else 0.0
    return _kinded(a, _reduce(a, axis, lambda x, y: x + y, z, keepdims))


def prod(a, axis=None, keepdims=False, **k):
    a = asarray(a)
    return _reduce(a, axis, lambda x, y: x * y, 1 if a._k else 1.0, keepdims)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    s = sum_(a, axis, keepdims=keepdims)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
    else:
        n = a.shape[axis]
    if isinstance(s, np.ndarray):
        return _ufunc("divide")(s, n)
    return _safe_div(s, n)


def var(a, axis=None, keepdims=False, ddof=0, **k):
    a = asarray(a)
    m = mean(a, axis, keepdims=True) if axis is not None else mean(a)
    r = mean((a - m) ** 2, axis, keepdims=keepdims)
    if ddof:
        n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
        r = r * n / (n - ddof)
    return r


def std(a, axis=None, **k):
    return _ufunc("sqrt")(var(a, axis, **k))


def _settled(a, gt):
    """the number among many values that is certainly the largest (smallest), if there is one"""
    v = list(_base(asarray(a)).reshape(-1))
    sy = [x for x in v if is_sym(x)]
    if len(v) < 6 or not sy or len(sy) == len(v):
        return None
    co = [x for x in v if not is_sym(x)]
    if builtins.any(x != x for x in co):
        return None
    best = builtins.max(co) if gt else builtins.min(co)
    beyond = [Y.bterm(x > best if gt else x < best) for x in sy]
    if Y.ctx().check(Y.z3.Or(*beyond)) == Y.z3.unsat:
        return best
    return None


def _extreme(a, axis, out, keepdims, initial, gt, where=True):
    if out is not None or where is not True:
        raise Unsupported("max/min options")
    a = asarray(a)
    if axis is None and not keepdims:
        best = _settled(a, gt)
        if best is not None:
            return best if initial is _NONE else ite(initial > best if gt else initial < best, initial, best)
    return _reduce(a, axis, (lambda x, y: ite(y > x, y, x)) if gt else (lambda x, y: ite(y < x, y, x)), initial, keepdims)


def min_(a, axis=None, out=None, keepdims=False, initial=_NONE, **k):
    return _extreme(a, axis, out, keepdims, initial, False, **k)


def max_(a, axis=None, out=None, keepdims=False, initial=_NONE, **k):
    return _extreme(a, axis, out, keepdims, initial, True, **k)


def all_(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(a, axis, lambda x, y: b_and(_to_bool(x), _to_bool(y)), True, keepdims)


def any_(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(a, axis, lambda x, y: b_or(_to_bool(x), _to_bool(y)), False, keepdims)


def _accumulate(a, axis, f):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(_base(a), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        acc = None
        for j in range(m.shape[-1]):
            acc = m[idx][j] if acc is None else f(acc, m[idx][j])
            o[idx + (j,)] = acc
    r = np.moveaxis(o, -1, axis).view(SA)
    r._k = "i" if a._k in ("i", "b") else None
    return r


def cumsum(a, axis=None, dtype=None, out=None):
    return _accumulate(a, axis, lambda x, y: x + y)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def _arg(a, axis, better):
    a = asarray(a)
    b = _base(a)

    def one(v):
        if len(v) == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        bi, bv = 0, v[0]
        for i in range(1, len(v)):
            c = better(v[i], bv)
            if builtins.bool(c):
                bi, bv = i, v[i]
        return bi

    def onebool(v):
        # first True (argmax) - one fork per element until found
        for i in range(len(v)):
            if builtins.bool(v[i]):
                return i
        return 0
    fn = onebool if (better is _gt and all_types(b.reshape(-1), (SymBool, bool, np.bool_))) else one
    if axis is None:
        return fn(list(b.reshape(-1)))
    m = np.moveaxis(b, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = fn(list(m[idx]))
    if out.ndim == 0:
        return out.item()
    r = out.view(SA)
    r._k = "i"
    return r


def _gt(a, b): return a > b
def _lt(a, b): return a < b
def argmax(a, axis=None, **k): return _arg(a, axis, _gt)
def argmin(a, axis=None, **k): return _arg(a, axis, _lt)


def count_nonzero(a, axis=None, **k):
    return sum_(_map(lambda x: ite(_to_bool(x), 1, 0), asarray(a)), axis)


def nonzero(a):
    b = _base(asarray(a))
    mask = np.array([builtins.bool(x) for x in b.reshape(-1)], dtype=bool).reshape(b.shape)
    return tuple(native_to_sa(x) for x in np.nonzero(mask))


def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    x, y = xy
    c, x, y = _base(asarray(cond)), _base(asarray(x)), _base(asarray(y))
    bc = np.broadcast(c, x, y)
    out = np.empty(bc.shape, dtype=object)
    fo = out.reshape(-1)
    for i, (cc, xx, yy) in enumerate(bc):
        fo[i] = ite(cc if type(cc) is SymBool else builtins.bool(cc), xx, yy)
    if out.ndim == 0:
        return out.item()
    return out.view(SA)


def flatnonzero(a):
    return nonzero(asarray(a).reshape(-1))[0]


def searchsorted(a, v, side="left", sorter=None):
    a = asarray(a)

    def one(x):
        n = 0
        for y in a:
            c = (y < x) if side == "left" else (y <= x)
            if builtins.bool(c):
                n += 1
            else:
                break
        return n
    if isinstance(v, (np.ndarray, list, tuple)):
        r = _map(one, asarray(v)).view(SA)
        r._k = "i"
        return r
    return one(v)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def sort(a, axis=-1, **k):
    a = asarray(a).copy()
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    for idx in np.ndindex(*m.shape[:-1]):
        v = list(m[idx])
        for i in range(1, len(v)):
            j = i
            while j > 0 and builtins.bool(v[j] < v[j - 1]):
                v[j], v[j - 1] = v[j - 1], v[j]
                j -= 1
        for j, x in enumerate(v):
            m[idx + (j,)] = x
    return a


def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = asarray(a)
    a = a.reshape(-1) if axis is None else a
    m = np.moveaxis(_base(sort(a, axis=-1 if axis is None else axis)), -1 if axis is None else axis, -1)
    n = m.shape[-1]
    r = native_to_sa(np.asarray((m[..., (n - 1) // 2] + m[..., n // 2]) / 2 if n % 2 == 0 else m[..., n // 2] + 0.0, dtype=object))
    if keepdims:
        raise Unsupported("median with keepdims")
    return r if r.ndim else r[()]


def _order(v):
    """stable sorting permutation, decided comparison by comparison"""
    o = []
    for i, x in enumerate(v):
        j = len(o)
        while j > 0 and builtins.bool(x < v[o[j - 1]]):
            j -= 1
        o.insert(j, i)
    return o


def argsort(a, axis=-1, **k):
    a = asarray(a)
    m = np.moveaxis(_base(a), axis, -1)
    out = np.empty(m.shape, dtype=int)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = _order(list(m[idx]))
    return native_to_sa(np.moveaxis(out, -1, axis))


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    v = list(_base(asarray(a)).reshape(-1))
    conc = []
    for x in v:
        if type(x) in (SymInt, SymBool):
            x = x.__index__()
        conc.append(x)
    if builtins.any(type(x) is SymReal for x in conc):
        if axis is not None:
            raise Unsupported("unique of symbolic reals along an axis")
        order = _order(conc)
        vals, first, inv, cnt = [], [], [0] * len(conc), []
        for i in order:
            if not vals or not builtins.bool(conc[i] == vals[-1]):
                vals.append(conc[i])
                first.append(i)
                cnt.append(0)
            first[-1] = builtins.min(first[-1], i)
            cnt[-1] += 1
            inv[i] = len(vals) - 1
        r = [array(vals)] + [native_to_sa(np.array(x, dtype=int)) for x, w in ((first, return_index), (inv, return_inverse), (cnt, return_counts)) if w]
        return tuple(r) if len(r) > 1 else r[0]
    r = np.unique(np.array(conc), return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
    return tuple(native_to_sa(x) for x in r) if isinstance(r, tuple) else native_to_sa(r)


def bincount(x, weights=None, minlength=0):
    v = [y.__index__() for y in _base(asarray(x)).reshape(-1)]
    return native_to_sa(np.bincount(np.array(v, dtype=int), minlength=minlength))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if isinstance(x, SymC) or isinstance(y, SymC):
            x, y = SymC.of(x), SymC.of(y)
            dr, di = x.re - y.re, x.im - y.im
            if is_num(y.re) and is_num(y.im):
                lim = atol + rtol * abs(complex(y.re, y.im))
                return dr * dr + di * di <= lim * lim
            if all(is_num(v) and abs(v) < 1e-30 for v in (dr, di)):
                return True
            lim = atol + rtol * abs(y)
            return dr * dr + di * di <= lim * lim
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(float(x), float(y), rtol, atol, equal_nan)) if not isinstance(x, complex) else bool(np.isclose(x, y))
        return abs(x - y) <= atol + rtol * abs(y)
    r = _map2(f, asarray(a), asarray(b))
    if isinstance(r, np.ndarray):
        return r.item() if r.ndim == 0 else r.view(SA)
    return r


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all_(a == b)


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = asarray(x)
    s = sum_(x * x, axis, keepdims=keepdims)
    return _ufunc("sqrt")(s)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return sum_(a * b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    A = a if a.ndim > 1 else a[None, :]
    B = b if b.ndim > 1 else b[:, None]
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported("dot ndim")
    out = zeros((A.shape[0], B.shape[1]))
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = sum_(A[i, :] * B[:, j])
    if a.ndim == 1:
        out = out[0]
    if b.ndim == 1:
        out = out[..., 0]
    return out


def convolve(a, v, mode="full"):
    a, v = asarray(a), asarray(v)
    n, m = len(a), len(v)
    full_ = zeros(n + m - 1)
    for i in range(n):
        for j in range(m):
            full_[i + j] = full_[i + j] + a[i] * v[j]
    if mode == "full":
        return full_
    if mode == "valid":
        lo, hi = builtins.min(n, m), builtins.max(n, m)
        return full_[lo - 1:hi]
    if mode == "same":
        L = builtins.max(n, m)
        s = (full_.shape[0] - L) // 2
        return full_[s:s + L]
    raise Unsupported("convolve mode")


def clip(a, lo, hi, out=None, **k):
    def f(x):
        if lo is not None:
            x = ite(x < lo, lo, x)
        if hi is not None:
            x = ite(x > hi, hi, x)
        return x
    r = _map(f, asarray(a)) if isinstance(a, (np.ndarray, list, tuple)) else f(a)
    return r.view(SA) if isinstance(r, np.ndarray) else r


def round_(a, decimals=0, out=None):
    if decimals:
        a = asarray(a) if isinstance(a, (np.ndarray, list, tuple)) else a
        if not has_sym(a if isinstance(a, np.ndarray) else asarray([a])):
            return native_to_sa(np.round(to_native(a), decimals)) if isinstance(a, np.ndarray) else round(a, decimals)
        f = 10 ** decimals if decimals > 0 else Fraction(1, 10 ** -decimals)
        return round_(a * f) / f
    if isinstance(a, (np.ndarray, list, tuple)):
        return _map(lambda x: _to_float(round(x)), asarray(a)).view(SA)
    return round(a)


def average(a, axis=None, weights=None, **k):
    a = asarray(a)
    if weights is None:
        return mean(a, axis)
    w = asarray(weights)
    return sum_(a * w, axis) / sum_(w)


def einsum(spec, *ops, **k):
    """explicit and implicit index notation, without ellipsis"""
    if not isinstance(spec, str) or "." in spec or k.get("out") is not None:
        raise Unsupported("einsum form")
    ops = [asarray(o) for o in ops]
    spec = spec.replace(" ", "")
    lhs, arrow, rhs = spec.partition("->")
    terms = lhs.split(",")
    if len(terms) != len(ops) or builtins.any(len(t) != o.ndim for t, o in zip(terms, ops)):
        raise ValueError("einsum: operands do not match the subscripts")
    if not arrow:
        rhs = "".join(sorted(c for c in set(lhs) - {","} if lhs.count(c) == 1))
    size = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            if size.get(c, 1) not in (1, n) and n != 1:
                raise ValueError("einsum: operands could not be broadcast together")
            size[c] = builtins.max(size.get(c, 1), n)
    summed = [c for c in size if c not in rhs]
    res = np.empty(tuple(size[c] for c in rhs), dtype=object)
    for idx in np.ndindex(*res.shape):
        at = dict(zip(rhs, idx))
        acc = None
        for sub in np.ndindex(*(size[c] for c in summed)):
            at.update(zip(summed, sub))
            v = None
            for t, o in zip(terms, ops):
                e = o.view(np.ndarray)[tuple(at[c] if n > 1 else 0 for c, n in zip(t, o.shape))]
                v = e if v is None else v * e
            acc = v if acc is None else acc + v
        res[idx] = 0 if acc is None else acc
    ks = {o._k for o in ops}
    r = res.view(SA)
    r._k = ks.pop() if len(ks) == 1 else None
    return r if rhs else res[()]


def outer(a, b, out=None):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return a[:, None] * b[None, :]


def vdot(a, b):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return sum_(a.conj() * b)


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.shape[-1] != b.shape[-1]:
        raise ValueError("inner: shapes not aligned")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("inner ndim")
    return dot(a, b if b.ndim == 1 else b.T)


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, (int, np.integer)):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = ([x] if isinstance(x, (int, np.integer)) else list(x) for x in axes)
        ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(65 + i) for i in range(b.ndim)]
    for x, y in zip(ax, bx):
        if a.shape[x] != b.shape[y]:
            raise ValueError("shape-mismatch for sum")
        lb[y] = la[x]
    out = [la[i] for i in range(a.ndim) if i not in ax] + [lb[i] for i in range(b.ndim) if i not in bx]
    return einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out)), a, b)


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asarray(a), asarray(b)
    a, b = (np.moveaxis(_base(x), ax, -1).view(SA) for x, ax in ((a, axisa), (b, axisb)))
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross of 2-vectors")
    r = [a[..., (i + 1) % 3] * b[..., (i + 2) % 3] - a[..., (i + 2) % 3] * b[..., (i + 1) % 3] for i in range(3)]
    return np.stack([np.asarray(asarray(x).view(np.ndarray)) for x in r], axis=axisc if r[0].ndim or True else -1).view(SA)


def kron(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or a.ndim > 2 or a.ndim == 0:
        raise Unsupported("kron ndim")
    if a.ndim == 1:
        return outer(a, b).reshape(-1)
    r = a[:, None, :, None] * b[None, :, None, :]
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def trace(a, offset=0, *x, **k):
    a = asarray(a)
    if a.ndim != 2 or x or k:
        raise Unsupported("trace form")
    return sum_(np.diagonal(a.view(np.ndarray), offset).view(SA))


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarray(a)
    r = np.diagonal(a.view(np.ndarray), offset, axis1, axis2).view(SA)
    r._k = a._k
    return r


def ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Unsupported("ediff1d ends")
    return diff(asarray(a).reshape(-1))


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    d = dx if x is None else diff(asarray(x))
    lo, hi = [slice(None)] * y.ndim, [slice(None)] * y.ndim
    lo[axis], hi[axis] = slice(None, -1), slice(1, None)
    if y.ndim > 1 and x is not None:
        raise Unsupported("trapezoid form")
    return sum_((y[tuple(lo)] + y[tuple(hi)]) * d / 2.0, axis)


def ptp(a, axis=None, out=None, keepdims=False):
    return max_(a, axis, keepdims=keepdims) - min_(a, axis, keepdims=keepdims)


def _drop_nan(fn, name):
    """a symbolic number is never nan; concrete nan entries need an axis-free reduction"""
    def g(a, axis=None, *x, **k):
        b = _base(asarray(a))
        bad = [_isnan(v) for v in b.reshape(-1)]
        if not builtins.any(bad):
            return fn(a, axis, *x, **k)
        if axis is not None and b.ndim > 1:
            raise Unsupported(name + " with nan along an axis")
        keep = [v for v, t in zip(b.reshape(-1), bad) if not t]
        if not keep and name != "nansum":
            return math.nan
        return fn(array(keep), None, **k) if keep else 0.0
    return g


def _cond_bool(c):
    return c if type(c) is SymBool else builtins.bool(c)


def heaviside(x, h):
    return _map2(lambda v, w: ite(v < 0, 0.0, ite(v == 0, w, 1.0)), x, h) if not isinstance(x, (np.ndarray, list, tuple)) \
        else _map2(lambda v, w: ite(v < 0, 0.0, ite(v == 0, w, 1.0)), asarray(x), h).view(SA)


def modf(x):
    t = _ufunc("trunc")(x)
    return x - t, t


def fmod(a, b):
    q = _ufunc("divide")(a, b)
    return a - b * _ufunc("trunc")(q)


def divmod_(a, b):
    return _ufunc("floor_divide")(a, b), _ufunc("remainder")(a, b)


def copysign(a, b):
    # the sign of a zero is not modelled: zero counts as positive
    return where(asarray(b) < 0, -abs(asarray(a)), abs(asarray(a)))


def argwhere(a):
    a = asarray(a)
    return array([list(t) for t in zip(*(list(x) for x in nonzero(a)))]).reshape(-1, a.ndim)


def extract(cond, a):
    return asarray(a).reshape(-1)[nonzero(asarray(cond).reshape(-1))[0]]


def compress(cond, a, axis=None, out=None):
    a = asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return _OVR["take"](a, nonzero(asarray(cond))[0], axis=axis)


def isin(el, test, assume_unique=False, invert=False, **k):
    t = list(_base(asarray(list(test) if isinstance(test, (set, range, types.GeneratorType)) else test)).reshape(-1))

    def one(v):
        r = False
        for w in t:
            r = b_or(r, v == w)
        return b_not(r) if invert else r
    r = _map(one, asarray(el) if isinstance(el, (np.ndarray, list, tuple)) else el)
    return r.view(SA) if isinstance(r, np.ndarray) else r


def correlate(a, v, mode="valid"):
    a, v = asarray(a), asarray(v)
    return convolve(a, v[::-1].conj(), mode)


def select(conds, choices, default=0):
    r = default
    for c, x in list(zip(conds, choices))[::-1]:
        r = where(c, x, r)
    return r


def broadcast_arrays(*arrs, **k):
    arrs = [asarray(a) for a in arrs]
    shape = np.broadcast_shapes(*(a.shape for a in arrs))
    return tuple(np.broadcast_to(a.view(np.ndarray), shape).view(SA) for a in arrs)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if _isnan(v):
            return nan
        if _isinf(v):
            return (np.finfo(float).max if posinf is None else posinf) if v > 0 else \
                (-np.finfo(float).max if neginf is None else neginf)
        return v
    if not isinstance(x, (np.ndarray, list, tuple)):
        return f(x)
    r = _map(f, asarray(x)).view(SA)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def block(arrs):
    def depth(b):
        return 1 + depth(b[0]) if isinstance(b, list) else 0
    top = depth(arrs)

    def build(b, lev):
        if not isinstance(b, list):
            a = asarray(b)
            while a.ndim < top:
                a = a[None]
            return a
        return concatenate([build(i, lev + 1) for i in b], axis=lev - top)
    return build(arrs, 0)


def resize(a, shape):
    a = asarray(a).reshape(-1)
    n = int(np.prod(shape))
    return concatenate([a] * (-(-n // len(a))))[:n].reshape(shape)


def sinc(x):
    def f(v):
        if not is_sym(v):
            return float(np.sinc(v))
        return ite(v == 0, 1.0, Y.sym_sin(v * math.pi) / ite(v == 0, 1.0, v * math.pi))
    r = _map(f, asarray(x)) if isinstance(x, (np.ndarray, list, tuple)) else f(x)
    return r.view(SA) if isinstance(r, np.ndarray) else r


def polyval(p, x):
    r = 0 * x
    for c in asarray(p):
        r = r * x + c
    return r


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp, fp = list(asarray(xp)), list(asarray(fp))

    def f(v):
        r = fp[-1] if right is None else right
        r = ite(v == xp[-1], fp[-1], r)
        for i in range(len(xp) - 2, -1, -1):
            den = xp[i + 1] - xp[i]
            r = ite(v < xp[i + 1], fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / den, r)
        return ite(v < xp[0], fp[0] if left is None else left, r)
    if isinstance(x, (np.ndarray, list, tuple)):
        return _map(f, asarray(x)).view(SA)
    return f(x)


def iscomplexobj(x):
    return builtins.any(type(v) is SymC or isinstance(v, (complex, np.complexfloating)) for v in _base(asarray(x)).reshape(-1))


def _uf_elem(name, real):
    return lambda a, **k: _map(lambda v: Y.uf(name, v) if is_sym(v) else float(real(v)), asarray(a)).view(SA) \
        if isinstance(a, (np.ndarray, list, tuple)) else (Y.uf(name, a) if is_sym(a) else real(a))


def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2 or wrap:
        raise Unsupported("fill_diagonal form")
    for i in range(builtins.min(a.shape)):
        a[i, i] = val


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = globals()["where"](where, src, dst)


def put(a, ind, v, mode="raise"):
    v = asarray(v).reshape(-1)
    for i, k in enumerate(asarray(ind).reshape(-1)):
        a[np.unravel_index(k.__index__(), a.shape)] = v[i % len(v)]


def putmask(a, mask, values):
    v = asarray(values).reshape(-1)
    m = asarray(mask).reshape(-1)
    for i, k in enumerate(np.ndindex(*a.shape)):
        a[k] = ite(_cond_bool(m[i]), v[i % len(v)], a[k])


def place(a, mask, vals):
    v = asarray(vals).reshape(-1)
    n = 0
    for k, m in zip(np.ndindex(*a.shape), asarray(mask).reshape(-1)):
        if builtins.bool(m):
            a[k] = v[n % len(v)]
            n += 1


def apply_along_axis(fn, axis, arr, *args, **kw):
    a = asarray(arr)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    rs = [asarray(fn(m[i].view(SA), *args, **kw)) for i in np.ndindex(*m.shape[:-1])]
    r = np.stack([x.view(np.ndarray) for x in rs]).reshape(m.shape[:-1] + rs[0].shape)
    k = rs[0].ndim
    ax = axis % a.ndim
    for j in range(k):                       # the new axes stand where the old one was
        r = np.moveaxis(r, m.ndim - 1 + j, ax + j)
    return r.view(SA)


class vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if excluded or signature:
            raise Unsupported("vectorize form")
        self.f = pyfunc

    def __call__(self, *args, **kw):
        b = np.broadcast_arrays(*[_base(asarray(a)) for a in args])
        out = np.empty(b[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = self.f(*[x[i] for x in b], **kw)
        return out.view(SA) if out.ndim else out[()]


def piecewise(x, conds, funcs, *args, **kw):
    x = asarray(x)
    conds = [asarray(c) for c in conds]
    if len(funcs) == len(conds) + 1:
        other = conds[0]
        for c in conds[1:]:
            other = other | c
        conds.append(~other)
    out = zeros(x.shape)
    for c, f in zip(conds, funcs):
        at = nonzero(c)
        if len(at[0]):
            out[at] = f(x[at], *args, **kw) if callable(f) else f
    return out


def choose(a, choices, out=None, mode="raise"):
    a = asarray(a)
    b = np.broadcast_arrays(a.view(np.ndarray), *[_base(asarray(c)) for c in choices])
    r = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = b[1 + b[0][i].__index__()][i]
    return r.view(SA)


def sliding_window_view(x, window_shape, axis=None, **k):
    a = asarray(x)
    return np.lib.stride_tricks.sliding_window_view(a.view(np.ndarray), window_shape, axis=axis).view(SA)


def take_along_axis(arr, idx, axis=-1):
    a, i = asarray(arr), asarray(idx)
    ii = np.array([v.__index__() for v in i.view(np.ndarray).reshape(-1)], dtype=int).reshape(i.shape)
    return np.take_along_axis(a.view(np.ndarray), ii, axis).view(SA)


def lexsort(keys, axis=-1):
    ks = [list(asarray(k)) for k in keys]
    idx = list(range(len(ks[0])))
    for k in ks:                             # stable sorts, the last key last
        for i in range(1, len(idx)):
            j = i
            while j > 0 and builtins.bool(k[idx[j]] < k[idx[j - 1]]):
                idx[j], idx[j - 1] = idx[j - 1], idx[j]
                j -= 1
    return native_to_sa(np.array(idx, dtype=int))


def union1d(a, b):
    return unique(concatenate((asarray(a).reshape(-1), asarray(b).reshape(-1))))


def intersect1d(a, b, *x, **k):
    u = unique(a)
    return u[nonzero(isin(u, b))[0]]


def setdiff1d(a, b, *x, **k):
    u = unique(a)
    return u[nonzero(isin(u, b, invert=True))[0]]


def partition(a, kth, axis=-1, **k):
    return sort(a, axis)


def isscalar(x):
    return True if is_sym(x) or type(x) is SymC else np.isscalar(x)


def cumprod(a, axis=None, dtype=None, out=None):
    return _accumulate(a, axis, lambda x, y: x * y)


def savez_compressed(file, *args, **kw):
    SAVED_NPZ.append((str(file) if str(file).endswith(".npz") else str(file) + ".npz",
                      {k: asarray(v).copy() if isinstance(v, np.ndarray) else v for k, v in kw.items()}))
    from pathlib import Path
    p = str(file)
    if not p.endswith(".npz"):
        p += ".npz"
    if not Path(p).parent.exists():
        raise FileNotFoundError(p)
    Path(p).write_bytes(b"symbolic")


SAVED_NPZ = []


def insert(arr, idx, val, axis=None):
    arr = asarray(arr)
    r = np.insert(arr.view(np.ndarray), idx, _base(val) if isinstance(val, np.ndarray) else _box(val), axis)
    return r.view(SA)


def append(arr, values, axis=None):
    a = asarray(arr)
    v = asarray(values)
    if axis is None:
        return concatenate((a.reshape(-1), v.reshape(-1)))
    return concatenate((a, v), axis=axis)


def concatenate(arrs, axis=0, **k):
    if isinstance(arrs, types.GeneratorType):
        arrs = list(arrs)
    lst = [asarray(a) for a in arrs]
    r = np.concatenate([a.view(np.ndarray) for a in lst], axis=axis).view(SA)
    ks = {a._k for a in lst if a.size or True}
    r._k = ks.pop() if len(ks) == 1 else None
    return r


def _struct(name):
    real = getattr(np, name)

    def g(*args, **kw):
        def prep(x, second=False):
            if isinstance(x, types.GeneratorType):
                x = list(x)
            if second and name in _FIRST_ARRAY and isinstance(x, SA) and x._k in ("i", "b"):
                if x._k == "b":
                    return np.array([builtins.bool(v) for v in x.view(np.ndarray).reshape(-1)], dtype=bool).reshape(x.shape)
                return np.array([v.__index__() for v in x.view(np.ndarray).reshape(-1)], dtype=int).reshape(x.shape)
            if isinstance(x, np.ndarray):
                return _base(x)
            if isinstance(x, (list, tuple)) and builtins.any(isinstance(i, np.ndarray) for i in x):
                return type(x)(_base(asarray(i)) for i in x)
            if isinstance(x, SymInt) or type(x) is SymInt:
                return x.__index__()
            return x
        if args and not isinstance(args[0], np.ndarray) and name in _FIRST_ARRAY:
            args = (array(args[0]),) + args[1:]
        k0 = getattr(args[0], "_k", None) if args else None
        if k0 is None and args and isinstance(args[0], np.ndarray) and args[0].dtype != object:
            k0 = {"i": "i", "b": "b"}.get(args[0].dtype.kind)
        if name in _SEQ_FIRST and args and isinstance(args[0], (list, tuple, types.GeneratorType)):
            seq = [array(i) if not isinstance(i, np.ndarray) else i for i in args[0]]
            ks = {getattr(i, "_k", None) for i in seq}
            k0 = ks.pop() if len(ks) == 1 else None
            args = ([_base(i) for i in seq],) + tuple(prep(a) for a in args[1:])
        else:
            args = tuple(prep(a, i > 0) for i, a in enumerate(args))
        r = real(*args, **{k: prep(v, True) for k, v in kw.items()})
        r = _rewrap(r)
        if isinstance(r, SA):
            r._k = k0
        return r
    g.__name__ = name
    return g


_FIRST_ARRAY = {"reshape", "transpose", "ravel", "squeeze", "expand_dims", "tile", "repeat", "roll", "flip", "fliplr",
                "flipud", "moveaxis", "swapaxes", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to", "rot90",
                "hsplit", "vsplit", "dsplit", "diag", "delete", "take", "split", "array_split", "triu", "tril", "rollaxis", "copy", "pad"}
_SEQ_FIRST = {"stack", "vstack", "hstack", "column_stack", "dstack"}
_STRUCT = _FIRST_ARRAY | _SEQ_FIRST

_OVR = {
    "full": full, "zeros": zeros, "ones": ones, "empty": zeros, "full_like": full_like,
    "zeros_like": _like(zeros), "ones_like": _like(ones), "empty_like": _like(zeros),
    "eye": eye, "identity": eye, "array": array, "asarray": asarray, "asanyarray": asarray,
    "ascontiguousarray": asarray, "arange": arange, "linspace": linspace, "meshgrid": meshgrid,
    "sum": sum_, "prod": prod, "product": prod, "mean": mean, "var": var, "std": std,
    "min": min_, "amin": min_, "max": max_, "amax": max_, 
    "all": all_, "any": any_, "cumsum": cumsum, "diff": diff, "argmax": argmax, "argmin": argmin, "argsort": argsort,
    "count_nonzero": count_nonzero, "nonzero": nonzero, "where": where, "flatnonzero": flatnonzero,
    "searchsorted": searchsorted, "digitize": digitize, "sort": sort, "median": median, "unique": unique, "bincount": bincount,
    "isclose": isclose, "allclose": allclose, "array_equal": array_equal, "dot": dot, "matmul": dot,
    "convolve": convolve, "clip": clip, "round": round_, "around": round_, "average": average,
    "savez_compressed": savez_compressed, "savez": savez_compressed, "insert": insert, "append": append,
    "concatenate": concatenate, "einsum": einsum,
    "outer": outer, "vdot": vdot, "inner": inner, "tensordot": tensordot, "cross": cross, "kron": kron, "trace": trace,
    "fill_diagonal": fill_diagonal, "copyto": copyto, "put": put, "putmask": putmask, "place": place,
    "apply_along_axis": apply_along_axis, "vectorize": vectorize, "piecewise": piecewise, "choose": choose,
    "take_along_axis": take_along_axis, "lexsort": lexsort, "union1d": union1d, "intersect1d": intersect1d,
    "setdiff1d": setdiff1d, "partition": partition, "isscalar": isscalar,
    "isreal": lambda x: _map(lambda v: not iscomplexobj([v]), asarray(x)).view(SA),
    "fromiter": lambda it, dtype=None, count=-1, **k: array(list(it), dtype=dtype),
    "cumprod": cumprod, "diagonal": diagonal, "ediff1d": ediff1d, "trapezoid": trapezoid, "trapz": trapezoid, "ptp": ptp,
    "nansum": _drop_nan(sum_, "nansum"), "nanmax": _drop_nan(max_, "nanmax"), "nanmin": _drop_nan(min_, "nanmin"),
    "nanmean": _drop_nan(mean, "nanmean"), "nanstd": _drop_nan(std, "nanstd"), "nanvar": _drop_nan(var, "nanvar"),
    "heaviside": heaviside, "fix": lambda x, out=None: _ufunc("trunc")(x), "modf": modf, "fmod": fmod, "divmod": divmod_,
    "copysign": copysign, "signbit": lambda x: asarray(x) < 0 if isinstance(x, (np.ndarray, list, tuple)) else x < 0,
    "argwhere": argwhere, "extract": extract, "compress": compress, "isin": isin, "in1d": isin, "correlate": correlate,
    "select": select, "broadcast_arrays": broadcast_arrays, "nan_to_num": nan_to_num, "block": block, "resize": resize,
    "sinc": sinc, "polyval": polyval, "interp": interp, "iscomplexobj": iscomplexobj,
    "isrealobj": lambda x: not iscomplexobj(x), "conj": _ufunc("conjugate"),
    "exp2": _uf_elem("exp2", np.exp2), "expm1": _uf_elem("expm1", np.expm1), "log2": _uf_elem("log2", np.log2),
    "log1p": _uf_elem("log1p", np.log1p), "cbrt": _uf_elem("cbrt", np.cbrt), "tan": lambda x: _ufunc("divide")(_ufunc("sin")(x), _ufunc("cos")(x)),
    "size": lambda a, axis=None: asarray(a).size if axis is None else asarray(a).shape[axis],
    "shape": lambda a: asarray(a).shape, "ndim": lambda a: asarray(a).ndim,
    "real": lambda a: asarray(a).real, "imag": lambda a: asarray(a).imag, "abs": None,
}
_OVR = {k: v for k, v in _OVR.items() if v is not None}
for _n in list(ELEM):
    if hasattr(np, _n):
        _OVR[_n] = _ufunc(_n)
_OVR["abs"] = _OVR["absolute"]
_OVR["mod"] = _OVR["remainder"]
_OVR["divide"] = _OVR["true_divide"] = _ufunc("divide")
for _n in _STRUCT:
    if hasattr(np, _n):
        _OVR[_n] = _struct(_n)

# real-numpy function -> handler for calls that reach numpy itself (unpatched library code)
for _n, _f in _OVR.items():
    _r = getattr(np, _n, None)
    if isinstance(_r, types.BuiltinFunctionType) or callable(_r):
        try:
            _HANDLED[_r] = _f
        except TypeError:
            pass
_PASS = {np.ndindex, np.shape, np.ndim, np.size}


class _Linalg:
    norm = staticmethod(norm)

    def __getattr__(self, n):
        if n == "LinAlgError":
            return np.linalg.LinAlgError

        return native_call(getattr(np.linalg, n), "np.linalg." + n)


_HANDLED[np.linalg.norm] = norm
_HANDLED[np.lib.stride_tricks.sliding_window_view] = sliding_window_view


def _has_sym(x):
    if is_sym(x) or type(x) is SymC:
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and builtins.any(is_sym(i) or type(i) is SymC for i in x.view(np.ndarray).reshape(-1))
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_sym(i) for i in x)
    if isinstance(x, dict):
        return builtins.any(_has_sym(i) for i in x.values())
    return False


has_sym = _has_sym


def to_native(x):
    """SA without symbols -> ordinary numpy array"""
    if isinstance(x, SA):
        l = x.view(np.ndarray)
        if _has_sym(l):
            raise Unsupported("symbolic array passed to native code")
        try:
            if x._k == "i":
                return l.astype(int)
            if x._k == "b":
                return l.astype(bool)
            if any(isinstance(v, (complex, np.complexfloating)) for v in l.flat):
                return l.astype(complex)
            return l.astype(float)
        except (TypeError, ValueError):
            return l
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(to_native(i) for i in x)
    if isinstance(x, dict):
        return {k: to_native(v) for k, v in x.items()}
    return x


def native_call(fn, what):
    def g(*a, **k):
        if _has_sym(a) or _has_sym(k):
            raise Unsupported("symbolic argument to %s" % what)
        r = fn(*to_native(list(a)), **to_native(k))
        return _rewrap(r)
    g.__name__ = getattr(fn, "__name__", "native")
    return g


class _Random:
    """Global numpy random functions: nondeterministic stubs (per-path fresh values)."""

    def __getattr__(self, n):
        from . import harness as H
        if n in ("default_rng", "Generator", "RandomState"):
            if n == "default_rng":
                return lambda seed=None: H.current().new_rng("default_rng")
            return getattr(np.random, n)
        g = H.current().new_rng("np.random") if False else H.current().global_rng()
        if n == "rand":
            return lambda *s: g.uniform(0, 1, s if s else None)
        if n == "randn":
            return lambda *s: g.normal(0, 1, s if s else None)
        return getattr(g, n)


class _FFT:
    def __getattr__(self, n):
        def g(*a, **k):
            from . import harness as H
            h = H.current()
            if n in h.fft_stub:
                return h.fft_stub[n](*a, **k)
            if n in ("fft", "rfft") and has_sym(a[0]):
                return dft(*a, half=n == "rfft", **k)
            if n in ("ifft", "irfft") and has_sym(a[0]):
                return idft(*a, half=n == "irfft", **k)
            return native_call(getattr(np.fft, n), "np.fft." + n)(*a, **k)
        return g


class NpShim(types.ModuleType):
    """Stands in for the numpy module inside the code under test."""

    def __init__(self):
        super().__init__("numpy")
        self.linalg = _Linalg()
        self.random = _Random()
        self.fft = _FFT()

    def __getattr__(self, n):
        f = _OVR.get(n)
        if f is not None:
            return f
        v = getattr(np, n)
        if callable(v) and not isinstance(v, type):
            return native_call(v, "np." + n)
        return v


NP = NpShim()

FUNC_MAP = {}
for _n, _f in _OVR.items():
    _r = getattr(np, _n, None)
    if callable(_r) and not isinstance(_r, type):
        try:
            FUNC_MAP[_r] = _f
        except TypeError:
            pass
FUNC_MAP[np.linalg.norm] = norm


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real
        s = {"sqrt": Y.sym_sqrt, "cos": Y.sym_cos, "sin": Y.sym_sin, "floor": Y.sym_floor, "ceil": Y.sym_ceil,
             "trunc": Y.sym_trunc, "fabs": abs, "atan2": Y.sym_arctan2, "acos": Y.sym_arccos, "asin": Y.sym_arcsin, "atan": Y.sym_arctan,
             "hypot": lambda *a: Y.sym_sqrt(builtins.sum(x * x for x in a)),
             "isnan": _isnan, "isinf": _isinf, "isfinite": lambda x: not (_isnan(x) or _isinf(x)),
             "log10": lambda x: Y.uf("log10", x), "log": lambda x: Y.uf("log", x), "exp": lambda x: Y.uf("exp", x),
             "fsum": lambda xs: builtins.sum(xs), "prod": lambda xs: prod(list(xs)),
             "radians": lambda a: a * (math.pi / 180), "degrees": lambda a: a * (180 / math.pi)}.get(n)

        def g(*a, **k):
            if _has_sym(a):
                if s is None:
                    if n in ("gcd", "lcm", "comb", "perm", "factorial", "isqrt"):
                        return real(*[x.__index__() for x in a])
                    if n == "isclose":
                        return isclose(a[0], a[1], k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0))
                    if n == "fmod":
                        raise Unsupported("fmod")
                    raise Unsupported("math.%s" % n)
                return s(*a)
            return real(*[x._one() if isinstance(x, SA) else x for x in a], **k)
        return g


MATH = MathShim()
