"""Install the symbolic interpretation into the imported code under test."""
import builtins
import importlib
import math
import pkgutil
import sys
import types
import numpy as np
from .npshim import NP, MATH, FUNC_MAP, SA, native_call, asarray, zeros, has_sym, convolve, native_to_sa
from . import sym as Y
from . import symstr
from .sym import Unsupported


class Null:
    """plotting stub: accepts everything, returns itself"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter((self, self))

    def __getitem__(self, k):
        return self

    def __setitem__(self, k, v):
        pass

    def __len__(self):
        return 2


class Plt(Null):
    def savefig(self, path, *a, **k):
        from pathlib import Path
        Path(path).write_bytes(b"figure")


NULL = Null()
PLT = Plt()


class ModStub(types.ModuleType):
    """wraps a C-backed library: concrete calls pass through, symbolic ones need a handler"""
    def __init__(self, real, handlers):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_h"] = handlers

    def __getattr__(self, n):
        if n in self._h:
            return self._h[n]
        v = getattr(self._real, n)
        if isinstance(v, types.ModuleType):
            return ModStub(v, {})
        if callable(v) and not isinstance(v, type):
            return native_call(v, "%s.%s" % (self._real.__name__, n))
        return v


def cdist(a, b, *args, **k):
    a, b = asarray(a), asarray(b)
    if not has_sym(a) and not has_sym(b):
        from scipy.spatial.distance import cdist as c
        from .npshim import to_native
        return native_to_sa(c(to_native(a), to_native(b)))
    out = zeros((a.shape[0], b.shape[0]))
    for i in range(a.shape[0]):
        for j in range(b.shape[0]):
            d = a[i, :] - b[j, :]
            out[i, j] = NP.sqrt(NP.sum(d * d))
    return out


def _along(x, axis):
    """x with `axis` last, and the way back"""
    ax = axis % x.ndim
    return NP.moveaxis(x, ax, -1), (lambda y: NP.moveaxis(y, -1, ax))


def lfilter(b, a, x, axis=-1, zi=None):
    """direct form II transposed, as scipy does it"""
    b, a, x = asarray(b).reshape(-1), asarray(a).reshape(-1), asarray(x)
    n = max(len(b), len(a))
    b = [b[i] / a[0] if i < len(b) else 0.0 for i in range(n)]
    a = [a[i] / a[0] if i < len(a) else 0.0 for i in range(n)]
    X, back = _along(x, axis)
    y = zeros(X.shape)
    z = zeros(X.shape[:-1] + (n - 1,)) if zi is None else native_to_sa(np.array(_along(asarray(zi), axis)[0].view(np.ndarray), dtype=object))
    if z.shape != X.shape[:-1] + (n - 1,):
        raise ValueError("unexpected shape of zi")
    for idx in np.ndindex(*X.shape[:-1]):
        for t in range(X.shape[-1]):
            v = X[idx + (t,)]
            w = b[0] * v + (z[idx + (0,)] if n > 1 else 0.0)
            for k in range(n - 1):
                nxt = z[idx + (k + 1,)] if k + 1 < n - 1 else 0.0
                z[idx + (k,)] = b[k + 1] * v - a[k + 1] * w + nxt
            y[idx + (t,)] = w
    return back(y) if zi is None else (back(y), back(z))


def sosfilt(sos, x, axis=-1, zi=None):
    x = asarray(x)
    sos = asarray(sos)
    if not has_sym(x) and not has_sym(sos) and (zi is None or not has_sym(asarray(zi))):
        from scipy.signal import sosfilt as f
        from .npshim import to_native
        r = f(to_native(sos), to_native(x), axis=axis, zi=None if zi is None else to_native(asarray(zi)))
        return native_to_sa(r) if zi is None else tuple(native_to_sa(v) for v in r)
    if x.size == 0:
        raise ValueError("cannot reshape array of size 0")     # as scipy does
    ax = axis % x.ndim
    zo = None if zi is None else native_to_sa(np.array(asarray(zi).view(np.ndarray), dtype=object))
    if zo is not None and zo.shape != (len(sos),) + x.shape[:ax] + (2,) + x.shape[ax + 1:]:
        raise ValueError("Invalid zi shape")
    for s in range(len(sos)):
        if zo is None:
            x = lfilter(sos[s][:3], sos[s][3:], x, axis)
        else:
            x, zo[s] = lfilter(sos[s][:3], sos[s][3:], x, axis, zo[s])
    return x if zo is None else (x, zo)


def nd_convolve(a, b, mode="full", axes=-1, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return convolve(a, b, mode)
    shp = np.broadcast_shapes(a.shape[:-1], b.shape[:-1])
    A = native_to_sa(np.broadcast_to(a.view(np.ndarray), shp + a.shape[-1:]))
    B = native_to_sa(np.broadcast_to(b.view(np.ndarray), shp + b.shape[-1:]))
    n = convolve(A[(0,) * len(shp)], B[(0,) * len(shp)], mode).shape[0]
    out = zeros(shp + (n,))
    for idx in np.ndindex(*shp):
        out[idx] = convolve(A[idx], B[idx], mode)
    return out


def resample_poly(x, up, down, axis=0, **k):
    """linear in x: the compiled code gives the matrix"""
    from scipy.signal import resample_poly as f
    x = asarray(x)
    n = x.shape[axis]
    if k or x.dtype == complex:
        raise Unsupported("resample_poly options")
    M = np.stack([f(e, up, down) for e in np.eye(n)], axis=1) if n else np.zeros((0, 0))
    X, back = _along(x, axis)
    out = zeros(X.shape[:-1] + (M.shape[0],))
    for idx in np.ndindex(*X.shape[:-1]):
        for i in range(M.shape[0]):
            acc = 0.0
            for j in range(n):
                acc = acc + float(M[i, j]) * X[idx + (j,)]
            out[idx + (i,)] = acc
    return back(out)


def max_len_seq(nbits, state=None, length=None, taps=None):
    from scipy.signal import max_len_seq as m
    from .npshim import to_native
    seq, st = m(int(nbits), state=None if state is None else np.asarray(to_native(asarray(state)), dtype=np.int8),
                length=None if length is None else length.__index__(), taps=to_native(taps))
    return native_to_sa(seq), native_to_sa(st)


def _linear(name):
    """zero-phase filters: linear in the signal, the compiled code gives the response to every unit pulse"""
    import scipy.signal as sg
    f = getattr(sg, name)

    def g(*a, axis=-1, **k):
        from .npshim import to_native
        *co, x = a
        co = [to_native(asarray(c)) for c in co]
        x = asarray(x)
        if not has_sym(x):
            return native_to_sa(f(*co, to_native(x), axis=axis, **k))
        X, back = _along(x, axis)
        n = X.shape[-1]
        cols = {}
        out = zeros(X.shape)
        for idx in np.ndindex(*X.shape[:-1]):
            const = np.zeros(n)
            for t in range(n):
                v = X[idx + (t,)]
                if not Y.is_sym(v):
                    const[t] = v
            row = native_to_sa(f(*co, const, **k) if const.any() else np.zeros(n))
            for t in range(n):
                v = X[idx + (t,)]
                if not Y.is_sym(v):
                    continue
                if t not in cols:
                    e = np.zeros(n)
                    e[t] = 1.0
                    c = f(*co, e, **k)
                    cols[t] = [(i, float(c[i])) for i in np.nonzero(np.abs(c) > 1e-12)[0]]
                for i, w in cols[t]:
                    row[i] = row[i] + w * v
            out[idx] = row
        return back(out)
    return g


SPSIG_H = {"sosfiltfilt": _linear("sosfiltfilt"), "filtfilt": _linear("filtfilt"), "lfilter": lfilter, "sosfilt": sosfilt, "oaconvolve": nd_convolve, "fftconvolve": nd_convolve, "convolve": nd_convolve,
           "max_len_seq": max_len_seq, "resample_poly": resample_poly}

EXTRA = {}     # module name -> replacement, set by harness modules before install()


def quiet_print(*a, **k):
    pass


def install(extra_modules=()):
    """Import aspsim completely and rebind the globals of its modules."""
    import aspsim
    mods = []
    from pathlib import Path
    root = Path(aspsim.__file__).parent
    for f in sorted(root.rglob("*.py")):      # diagnostics/ is a namespace package
        name = ".".join(("aspsim",) + f.relative_to(root).with_suffix("").parts)
        if name.endswith(".__init__"):
            continue
        try:
            mods.append(importlib.import_module(name))
        except ImportError:
            pass
    mods += [m for n, m in sorted(sys.modules.items()) if n.startswith("aspsim.") and m is not None and m not in mods]
    mods.append(aspsim)
    for n in ("aspcore.filter", "aspcore.filterdynamic", "aspcore.utilities", "aspcore.correlation") + tuple(extra_modules):
        try:
            mods.append(importlib.import_module(n))
        except ImportError:
            pass
    import scipy.signal, scipy.linalg, scipy.spatial.distance
    import matplotlib.pyplot, matplotlib.patches
    import soundfile
    import pyroomacoustics
    repl = {
        np: NP, math: MATH, np.linalg: NP.linalg, np.random: NP.random, np.fft: NP.fft,
        scipy.signal: ModStub(scipy.signal, SPSIG_H),
        scipy.linalg: ModStub(scipy.linalg, {}),
        scipy.spatial.distance: ModStub(scipy.spatial.distance, {"cdist": cdist}),
        matplotlib.pyplot: PLT, matplotlib.patches: NULL,
    }
    repl.update(EXTRA)
    byid = {id(k): v for k, v in repl.items()}
    fmap = {id(k): v for k, v in FUNC_MAP.items()}
    fmap[id(scipy.spatial.distance.cdist)] = cdist
    for n, f in SPSIG_H.items():
        fmap[id(getattr(scipy.signal, n))] = f
    for n in ("sqrt", "floor", "ceil", "cos", "sin", "hypot", "atan2", "acos", "asin", "atan", "isnan", "isinf", "trunc"):
        fmap[id(getattr(math, n))] = getattr(MATH, n)
    for m in mods:
        for g, v in list(vars(m).items()):
            if g.startswith("__"):
                continue
            if id(v) in byid:
                setattr(m, g, byid[id(v)])
            elif id(v) in fmap and not isinstance(v, type):
                setattr(m, g, fmap[id(v)])
        m.__dict__["print"] = quiet_print
        for bn, bf in BUILTINS.items():
            if bn not in m.__dict__:
                m.__dict__[bn] = bf
    return [m.__name__ for m in mods]


def _min(*a, **k):
    if k or (len(a) == 1 and not hasattr(a[0], "__iter__")):
        return builtins.min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(type(x) in (Y.SymInt, Y.SymReal) for x in xs):
        return Y.smin(*xs)
    return builtins.min(xs)


def _max(*a, **k):
    if k or (len(a) == 1 and not hasattr(a[0], "__iter__")):
        return builtins.max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(type(x) in (Y.SymInt, Y.SymReal) for x in xs):
        return Y.smax(*xs)
    return builtins.max(xs)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._t)

    def __subclasscheck__(cls, s):
        return issubclass(s, cls._t)

    def __eq__(cls, o):
        return o is cls._t or o is cls

    def __hash__(cls):
        return hash(cls._t)


class _int(metaclass=_Meta):
    _t = int

    def __new__(cls, x=0, *a):
        if isinstance(x, SA):
            x = x._one()
        if type(x) in (Y.SymInt, Y.SymReal):
            return Y.sym_trunc(x)
        if type(x) is Y.SymBool:
            return Y.ite(x, 1, 0)
        if isinstance(x, str) and not a:
            x = symstr.wrap(x)
            if type(x) is symstr.SymStr:
                return x.to_int()
        return int(x, *a)


class _float(metaclass=_Meta):
    _t = float

    def __new__(cls, x=0.0):
        if isinstance(x, SA):
            x = x._one()
        if type(x) in (Y.SymInt, Y.SymReal, Y.SymBool):
            return Y.SymReal(Y.term(x, True))
        return float(x)


# NB: `int`/`float` stay real types inside isinstance() because the shadows forward to them
BUILTINS = {"min": _min, "max": _max, "int": _int, "float": _float}
