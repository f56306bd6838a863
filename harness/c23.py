"""C23: nested attribute and item names select exactly the named value."""
ID = "C23"
BOUNDS = "paths of up to 4 accesses (attribute, integer index, quoted key) after the first attribute; every attribute name of 1..2 (quick) / 3 characters, index of 1-2 digits with or without sign, key of 0..3 characters, all characters symbolic"
STUBS = "the object graph only records which attribute/item was asked for"

FIRST = "abz_AZ"
ALPHA = FIRST + "019"
KEY = "ab1_ -.[]"
NUM = "0123456789"


def cases(tier):
    shapes = [["a"], ["a", "a"], ["a", "i"], ["a", "k"], ["a", "i", "a", "k"], ["a", "k", "i", "a"], ["a", "k", "k"], ["a", "i", "i"], ["a", "a", "k", "a"], ["a", "n", "k"]]
    if tier != "quick":
        shapes += [["a", "k", "a", "k", "i"], ["a", "i", "k", "i", "a"], ["a", "k", "k", "a", "i"], ["a", "a", "a", "n", "n"]]
    return [dict(shape=s, la=[1, 2], lk=[0, 3 if len(s) < 4 else 2]) for s in shapes] + [dict(late=True), dict(bad=True)]


class Node:
    """remembers the chain of accesses that led to it"""
    def __init__(self, trace):
        object.__setattr__(self, "_t", trace)

    def __getattribute__(self, n):
        if isinstance(n, str) and n in ("_t", "__class__") and type(n) is str:
            return object.__getattribute__(self, n)
        return Node(object.__getattribute__(self, "_t") + [("a", n)])

    def __getitem__(self, i):
        return Node(object.__getattribute__(self, "_t") + [("i", i)])


def run(S, case):
    core = S.mod("aspsim.diagnostics.core")
    if case.get("late"):
        # the value at the time of the call counts, and the object is only read
        class O:
            pass
        o, p = O(), O()
        x, y = S.real("x"), S.real("y")
        o.a = [x, {"k": x + 1}]
        g = core.attritemgetter("a[1]['k']")
        S.eq("value now", g(o), x + 1)
        o.a[1]["k"] = y
        S.eq("value later", g(o), y)
        p.a = [y, {"k": y - 1}]
        S.eq("another object", g(p), y - 1)
        o.b = O()
        o.b.c = p
        i = S.int("i", -2, 1)
        S.eq("negative and positive positions", core.attritemgetter("b.c.a[%d]" % i.__index__())(o) if i % 2 == 0 else y, y)
        S.check("object not changed", o.a[0] is x and sorted(vars(o)) == ["a", "b"])
        return
    if case.get("bad"):
        k = S.string("k", 2, KEY.replace("[", "").replace("]", ""))
        S.check("missing end apostrophe is refused", S.raises(lambda: core.attritemgetter("a['" + k + "]")(Node([]))) is not None)
        S.check("missing attribute raises", isinstance(S.raises(lambda: core.attritemgetter("nothere")(object())), AttributeError))
        return
    want = []
    name = ""
    for j, kind in enumerate(case["shape"]):
        if kind == "a":
            n = S.cint("n%d" % j, *case["la"])
            a = S.string("f%d" % j, 1, FIRST) + S.string("r%d" % j, n - 1, ALPHA)
            name = (name + "." if j else name) + a
            want.append(("a", a))
        elif kind in "in":
            n = S.cint("n%d" % j, 1, 2)
            d = [S.int("d%d_%d" % (j, q), 0, 9) for q in range(n)]
            s = S.string("s%d" % j, n, NUM)
            v = 0
            for q in range(n):
                v = v * 10 + d[q]
                S.assume(S.same(s[q], str(d[q])) if not S.symbolic else digit(S, s[q], d[q]))
            name = name + "[" + ("-" if kind == "n" else "") + s + "]"
            want.append(("i", -v if kind == "n" else v))
        else:
            n = S.cint("n%d" % j, *case["lk"])
            k = S.string("k%d" % j, n, KEY)
            name = name + "['" + k + "']"
            want.append(("i", k))
    r = core.attritemgetter(name)(Node([]))
    got = r._t
    S.check("as many accesses as named", len(got) == len(want), "%s: %s" % (name, got))
    if len(got) == len(want):
        for (k, v), (gk, gv) in zip(want, got):
            S.check("attribute or item", k == gk)
            if isinstance(v, str):
                S.check("name or key", isinstance(gv, str) and S.same(gv, v), "%r: %r" % (name, gv))
            else:
                S.check("index", (not isinstance(gv, str)) and gv == v, "%r: %r" % (name, gv))


def digit(S, c, d):
    from symex import symstr, sym
    return sym.wrap_s(symstr.code(symstr._raw(c)) == d.e + 48)
