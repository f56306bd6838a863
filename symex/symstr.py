"""Strings of concrete length whose characters may be solver variables.

A symbolic character is kept in the underlying (real) str as a private-use code
point, so that C code that only moves characters around (join, f-strings,
slicing) keeps its identity; `wrap` turns such a str into a SymStr again."""
import z3
from . import sym as Y

BASE = 0xF0000
_TAB = {}      # sentinel code -> z3 Int expression
_REV = {}


def reset():
    _TAB.clear()
    _REV.clear()


def sentinel(e):
    k = e.get_id()
    if k not in _REV:
        c = BASE + len(_TAB)
        _TAB[c] = e
        _REV[k] = c
    return chr(_REV[k])


def wrap(s):
    """a str (possibly holding sentinels) as SymStr, or as plain str if nothing in it is symbolic"""
    if type(s) is SymStr:
        return s
    if isinstance(s, str) and any(ord(c) >= BASE for c in s):
        return SymStr(s)
    return s


def code(c):
    o = ord(str.__str__(c))
    return _TAB[o] if o >= BASE else z3.IntVal(o)


def _raw(s):
    return str.__str__(s) if isinstance(s, str) else s


def _eqc(a, b):
    """are two raw characters equal (symbolic)"""
    if a == b:
        return True
    if ord(a) < BASE and ord(b) < BASE:
        return False
    return Y.wrap_s(code(a) == code(b))


def _dec(b):
    return bool(b)


class SymStr(str):
    def _r(self):
        return str.__str__(self)

    def __len__(self):
        return str.__len__(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
        else:
            i = i.__index__()
        return wrap(self._r()[i])

    def __iter__(self):
        for c in self._r():
            yield wrap(c)

    def __reversed__(self):
        return iter([wrap(c) for c in reversed(self._r())])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return wrap(self._r() + _raw(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return wrap(_raw(o) + self._r())

    def __mul__(self, n):
        return wrap(self._r() * n.__index__())
    __rmul__ = __mul__

    def _eq(self, o):
        a, b = self._r(), _raw(o)
        if len(a) != len(b):
            return False
        return Y.b_and(*[_eqc(x, y) for x, y in zip(a, b)]) if a else True

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._eq(o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return Y.b_not(self._eq(o))

    def concretise(self):
        out = []
        for c in self._r():
            out.append(chr(Y.ctx().concretize(_TAB[ord(c)])) if ord(c) >= BASE else c)
        return "".join(out)

    def __hash__(self):
        return hash(self.concretise())

    def __format__(self, spec):
        return format(self._r(), spec) if spec == "" else format(self.concretise(), spec)

    def __str__(self):
        return self

    def __repr__(self):
        return repr(self._r())

    def __lt__(self, o): return self.concretise() < wrap_con(o)
    def __gt__(self, o): return self.concretise() > wrap_con(o)
    def __le__(self, o): return self.concretise() <= wrap_con(o)
    def __ge__(self, o): return self.concretise() >= wrap_con(o)

    def _at(self, sub, i):
        """does sub occur at position i"""
        a, b = self._r(), _raw(sub)
        if i < 0 or i + len(b) > len(a):
            return False
        return Y.b_and(*[_eqc(a[i + k], b[k]) for k in range(len(b))]) if b else True

    def startswith(self, p, start=0, end=None):
        s = self[start:end] if (start or end is not None) else self
        if isinstance(p, tuple):
            return any(_dec(SymStr(_raw(s))._at(q, 0)) for q in p)
        return _dec(SymStr(_raw(s))._at(p, 0))

    def endswith(self, p, start=0, end=None):
        s = SymStr(_raw(self[start:end] if (start or end is not None) else self))
        if isinstance(p, tuple):
            return any(_dec(s._at(q, len(s) - len(q))) for q in p)
        return _dec(s._at(p, len(s) - len(p)))

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def find(self, sub, start=0, end=None):
        end = len(self) if end is None else min(end, len(self))
        for i in range(start, end - len(sub) + 1):
            if _dec(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        end = len(self) if end is None else min(end, len(self))
        for i in range(end - len(sub), start - 1, -1):
            if _dec(self._at(sub, i)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        n = i = 0
        while i <= len(self) - len(sub):
            if _dec(self._at(sub, i)):
                n, i = n + 1, i + max(1, len(sub))
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        if old == "":
            raise Y.Unsupported("replace of empty string")
        out, i = "", 0
        while i < len(self):
            if count != 0 and _dec(self._at(old, i)):
                out, i, count = out + _raw(new), i + len(old), count - 1
            else:
                out, i = out + self._r()[i], i + 1
        return wrap(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Y.Unsupported("split on whitespace")
        out, cur, i = [], "", 0
        while i < len(self):
            if maxsplit != 0 and _dec(self._at(sep, i)):
                out.append(wrap(cur))
                cur, i, maxsplit = "", i + len(sep), maxsplit - 1
            else:
                cur, i = cur + self._r()[i], i + 1
        return out + [wrap(cur)]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        out, rest = [], self
        while maxsplit > 0:
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest, maxsplit = rest[:i], maxsplit - 1
        return [rest] + out

    def partition(self, sep):
        i = self.find(sep)
        return (self[:i], sep, self[i + len(sep):]) if i >= 0 else (self, "", "")

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (self[:i], sep, self[i + len(sep):]) if i >= 0 else ("", "", self)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def _isin(self, c, chars):
        return any(_dec(_eqc(c, x)) for x in _raw(chars))

    def lstrip(self, chars=None):
        chars = " \t\n\r\x0b\x0c" if chars is None else chars
        r, i = self._r(), 0
        while i < len(r) and self._isin(r[i], chars):
            i += 1
        return wrap(r[i:])

    def rstrip(self, chars=None):
        chars = " \t\n\r\x0b\x0c" if chars is None else chars
        r = self._r()
        i = len(r)
        while i > 0 and self._isin(r[i - 1], chars):
            i -= 1
        return wrap(r[:i])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def _alldigits(self):
        """True/False by forking per character (ASCII)"""
        if len(self) == 0:
            return False
        for c in self._r():
            if ord(c) >= BASE:
                e = _TAB[ord(c)]
                if not _dec(Y.wrap_s(z3.And(e >= 48, e <= 57))):
                    return False
            elif not c.isdigit():
                return False
        return True

    isdigit = isdecimal = isnumeric = _alldigits

    def join(self, parts):
        parts = list(parts)
        out = ""
        for i, p in enumerate(parts):
            out += (self._r() if i else "") + _raw(p)
        return wrap(out)

    def to_int(self):
        """int(self) with symbolic digits"""
        tmpl, digits = "", []
        for c in self._r():
            if ord(c) >= BASE:
                e = _TAB[ord(c)]
                if _dec(Y.wrap_s(z3.And(e >= 48, e <= 57))):
                    tmpl += "1"
                    digits.append(e - 48)
                else:
                    tmpl += chr(Y.ctx().concretize(e))
            else:
                tmpl += c
                if c.isdigit():
                    digits.append(z3.IntVal(int(c)))
        int("".join("1" if ch.isdigit() else ch for ch in tmpl))     # ValueError as the real int()
        v = z3.IntVal(0)
        for d in digits:
            v = v * 10 + d
        if tmpl.strip().startswith("-"):
            v = -v
        return Y.SymInt(z3.simplify(v))


def wrap_con(o):
    return o.concretise() if type(o) is SymStr else o


def _uns(name):
    def f(self, *a, **k):
        # any other method: enumerate the characters (sound, the path condition fixes them)
        return getattr(self.concretise(), name)(*a, **k)
    return f


for _n in dir(str):
    if _n not in SymStr.__dict__ and not _n.startswith("__"):
        setattr(SymStr, _n, _uns(_n))
