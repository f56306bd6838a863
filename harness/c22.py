"""C22: file and folder names."""
ID = "C22"
BOUNDS = "folders with up to 3 (quick) / 4 entries of up to 5 characters each beyond a common prefix, all characters symbolic over a small alphabet; indices 0..120, once up to 55555; up to 3 names requested at once"
STUBS = "wall clock (fixed time string); the folder is a stand-in with symbolic entry names (a real folder in replays)"

ALPHA = "ab_019.-"


class Folder:
    """stand-in for a pathlib folder holding symbolic names"""
    def __init__(self, S, entries, path=""):
        self.S, self.entries = S, entries

    def joinpath(self, name):
        return File(self, name)
    __truediv__ = joinpath

    def iterdir(self):
        return iter([File(self, n) for n in self.entries])

    def glob(self, pat):
        if pat == "*":
            return self.iterdir()
        raise self.S.Y.Unsupported("glob")

    def exists(self):
        return True
    is_dir = exists


class File:
    def __init__(self, folder, name):
        self.parent = folder
        self.name = name if not folder.S.symbolic else _wrap(name)

    def exists(self):
        return any(bool(self.parent.S.same(self.name, e)) for e in self.parent.entries)
    is_dir = exists
    is_file = exists

    @property
    def stem(self):
        i = self.name.rfind(".")
        return self.name[:i] if 0 < i < len(self.name) - 1 else self.name

    @property
    def suffix(self):
        i = self.name.rfind(".")
        return self.name[i:] if 0 < i < len(self.name) - 1 else ""

    @property
    def parts(self):
        return ("/", self.name)

    def with_name(self, n):
        return File(self.parent, n)


def _wrap(n):
    from symex import symstr
    return symstr.wrap(n)


def folder(S, entries):
    S.assume(S.and_(*[S.not_(S.same(a, b)) for i, a in enumerate(entries) for b in entries[:i]]))
    S.assume(S.and_(*[S.not_(S.same(a, b)) for a in entries for b in (".", "..")]))
    if S.symbolic:
        return Folder(S, entries)
    d = S.scratch()
    for e in entries:
        (d / e).write_text("x")
    return d


def cases(tier):
    T = tier != "quick"
    n = [0, 3 if not T else 4]
    return [
        dict(kind="unique", n=n),
        dict(kind="unique_detailed", n=[0, 2]),
        dict(kind="unique", n=[1, 1], crowd=[9, 12 if not T else 21], near=1, pre=["figs_"]),
        dict(kind="multi", n=[1, 1], crowd=[9, 11], near=1, pre=[""], k=[2, 3]),
        dict(kind="multi", n=[0, 2], k=[1, 3]),
        dict(kind="multi", n=[3, 3], k=[2, 2], near=1, pre=["figs_"]),
        dict(kind="highest", n=[0, 2], l=[0, 2], pre=["f_", ""], suf=[".b", ""]),
        dict(kind="highest", n=[2, 2], l=[2, 3], pre=["a"], suf=["_9"]),
        dict(kind="highest", n=[3, 3], l=[1, 2], pre=["f_"], suf=[".b"], near=1),
        dict(kind="earlier", n=[0, 1], l=[0, 3], names=["a", "a_1", "a_"]),
        dict(kind="earlier", n=[2, 2], l=[1, 2], names=["a"], cur=[1, 10] if T else [10]),
        dict(kind="earlier", n=[3, 3], l=[1, 1] if not T else [1, 2], names=["a"], near=1, cur=[5]),
        dict(kind="earlier", n=[1, 1], l=[1, 5], names=["a"], near=1, cur=[11050]),
        dict(kind="unique", n=[1, 2], near=1, pre=["a_long_name_for_a_series_of_figures_of_some_experiment_"]),
        dict(kind="tikz"),
        dict(kind="earlier_free", n=[1, 2], l=[3, 4] if not T else [3, 5], names=["a"]),
        dict(kind="index", l=[0, 3]),
        dict(kind="roundtrip"),
    ]


def digits(S, s):
    """(is a non-empty ASCII digit string, value)"""
    if len(s) == 0:
        return False, 0
    if not S.symbolic:
        return (s.isdigit(), int(s) if s.isdigit() else 0)
    from symex import symstr, sym
    z3 = sym.z3
    ok, v = [], z3.IntVal(0)
    for c in symstr._raw(s):
        e = symstr.code(c)
        ok.append(z3.And(e >= 48, e <= 57))
        v = v * 10 + (e - 48)
    return sym.wrap_s(z3.simplify(z3.And(*ok))), sym.SymInt(z3.simplify(v))


def run(S, case):
    fu = S.mod("aspsim.fileutilities")
    kind = case["kind"]
    T = "2026_01_02_03_04"

    def clock(detailed=False):
        return T + ("_05_000678" if detailed else "")
    if hasattr(fu, "get_time_string"):
        S.patch("aspsim.fileutilities", "get_time_string", clock)
    if kind in ("unique", "unique_detailed", "multi"):
        pre = S.choose("prefix", case.get("pre", ["figs_", ""]))
        n = S.cint("n", *case["n"])
        entries = []
        base = pre + clock(kind == "unique_detailed")
        for i in range(n):
            if case.get("near") or S.bool("near%d" % i):
                entries.append(base + "_" + S.string("e%d" % i, S.cint("l%d" % i, 1, 2), "0129"))
            else:
                entries.append(S.string("e%d" % i, 2, ALPHA))
        if "crowd" in case:                     # most of the numbers 0..c are taken
            c = S.cint("crowd", *case["crowd"])
            gap = S.choose("gap", [None, 0, 8, c - 1, c])
            entries += [base + "_" + str(i) for i in range(c + 1) if i != gap]
            n = len(entries)
        f = folder(S, entries)
        if kind != "multi":
            r = fu.get_unique_folder_name(pre, f, kind == "unique_detailed")
            names = [r.name]
            S.check("inside the given folder", (r.parent is f) if S.symbolic else (r.parent == f))
        else:
            k = S.cint("k", *case["k"])
            r = fu.get_multiple_unique_folder_names(pre, f, k)
            S.check("as many names as asked for", len(r) == k)
            S.check("inside the given folder", all((x.parent is f) if S.symbolic else (x.parent == f) for x in r))
            names = [x.name for x in r]
        for i, nm in enumerate(names):
            S.check("name is prefix, time and a number", S.and_(S.same(nm[:len(base) + 1], base + "_"), digits(S, nm[len(base) + 1:])[0]), nm)
            for e in entries:
                S.check("a proposed name does not exist", S.not_(S.same(nm, e)), "%r %r" % (nm, e))
            for b in names[:i]:
                S.check("proposed names differ", S.not_(S.same(nm, b)))
        if kind != "multi":
            v = digits(S, names[0][len(base) + 1:])[1]
            for j in range(n + 1):
                taken = S.or_(*[S.same(e, base + "_" + str(j)) for e in entries]) if entries else False
                S.check("numbers are used from zero on", S.implies(v > j, taken))
    elif kind == "highest":
        pre = S.choose("prefix", case["pre"])
        suf = S.choose("suffix", case["suf"])
        n = S.cint("n", *case["n"])
        mids = []
        entries = []
        for i in range(n):
            if case.get("near") or S.bool("near%d" % i):
                entries.append(pre + S.string("e%d" % i, S.cint("l%d" % i, *case["l"]), "019b") + suf)
            else:
                entries.append(S.string("e%d" % i, 2, "a_01."))
        entries = [e for e in entries if len(e)]
        f = folder(S, entries)
        r = fu.get_highest_numbered_file(f, pre, suf)
        isn, val = [], []
        for e in entries:
            if len(e) > len(pre) + len(suf):
                d, v = digits(S, e[len(pre):len(e) - len(suf)])
                isn.append(S.and_(S.same(e[:len(pre)], pre), S.same(e[len(e) - len(suf):], suf), d))
                val.append(v)
            else:
                isn.append(False)
                val.append(0)
        if r is None:
            S.check("nothing found only if no numbered file exists", S.not_(S.or_(*isn)) if isn else True)
        else:
            S.check("the file found exists", S.or_(*[S.same(r.name, e) for e in entries]) if entries else False, r.name)
            for i, e in enumerate(entries):
                for j in range(len(entries)):
                    S.check("no file of the series has a higher number", S.implies(S.and_(S.same(r.name, e), isn[j]), S.and_(isn[i], val[i] >= val[j])), "%r" % (r.name,))
    elif kind in ("earlier", "earlier_free"):
        name = S.choose("name", case["names"])
        if kind == "earlier":
            cur = S.choose("cur", case.get("cur", [0, 1, 5, 10, 11]))
            incl = S.bool("incl")
            strict = S.bool("strict")
        else:
            cur, incl, strict = 1, S.bool("incl"), False
        n = S.cint("n", *case["n"])
        stem0 = name + "_"
        entries = []
        for i in range(n):
            if kind == "earlier":
                if case.get("near") or S.bool("near%d" % i):
                    entries.append(stem0 + S.string("e%d" % i, S.cint("l%d" % i, *case["l"]), "015_b") + S.choose("x%d" % i, [".np", ""]))
                else:
                    entries.append(S.string("e%d" % i, 2, ALPHA))
            else:
                entries.append(S.string("e%d" % i, S.cint("l%d" % i, *case["l"]), "a_1."))
        f = folder(S, entries)
        arg = stem0 + str(cur) if incl else name
        if strict and S.bool("default"):
            call = lambda: fu.find_all_earlier_files(f, arg, cur, incl)
        else:
            call = lambda: fu.find_all_earlier_files(f, arg, cur, name_includes_idx=incl, error_if_future_files_exist=strict)
        got = []

        def do():
            got.extend(call())
        e = S.raises(do)
        ins, val = [], []
        for x in entries:
            i = x.rfind(".")
            st = x[:i] if 0 < i < len(x) - 1 else x
            d, v = digits(S, st[len(stem0):]) if len(st) > len(stem0) else (False, 0)
            ins.append(S.and_(S.same(st[:len(stem0)], stem0), d))
            val.append(v)
        future = S.or_(*[S.and_(ins[i], val[i] > cur) for i in range(len(entries))]) if entries else False
        if e is not None:
            S.check("raises only about later files, if asked to", S.and_(strict, isinstance(e, ValueError), future), repr(e))
        else:
            S.check("later files are reported if asked to", S.implies(strict, S.not_(future)))
            for i, x in enumerate(entries):
                hits = S.or_(*[S.same(x, g.name) for g in got]) if got else False
                want = S.and_(ins[i], val[i] < cur)
                S.check("exactly the earlier files of this series", S.and_(S.implies(want, hits), S.implies(hits, want)), "%r in %s" % (x, [g.name for g in got]))
            S.check("no file twice", len(got) <= len(entries) and all(not (a is b) for i, a in enumerate(got) for b in got[:i]))
    elif kind == "tikz":
        d = S.scratch()
        opts = ["a_0", "a_3", "b_3", "a_b_3", "a_x", "aa_3", "a_5", "a_13x"]
        ents = sorted({S.choose("e%d" % i, opts) for i in range(2)})
        for e in ents:
            (d / e).mkdir()
            for x in (".pdf", ".tex", "-000.tsv"):
                (d / e / (e + x)).write_text(e + x)
        name = S.choose("name", ["a_5", "a", "a_3"])
        future = name == "a_3" and "a_5" in ents
        plot = S.mod("aspsim.diagnostics.plot")
        e = S.raises(lambda: plot.delete_earlier_tikz_plot(d, name))
        S.check("complains exactly about later plots", (e is not None) == future, repr(e))
        for x in ents:
            idx = int(x[2:]) if x[:2] == "a_" and x[2:].isdigit() else None
            if e is None and idx is not None and name != "a" and idx < int(name[2:]):
                S.check("earlier plot folder removed", not (d / x).exists(), x)
                S.check("its pdf is kept beside it", (d / (x + ".pdf")).exists() and (d / (x + ".pdf")).read_text() == x + ".pdf", x)
            elif e is None:
                S.check("other plots stay", sorted(f.name for f in (d / x).iterdir()) == sorted(x + y for y in (".pdf", ".tex", "-000.tsv")), x)
    elif kind == "index":
        head = S.string("h", S.cint("lh", *case["l"]), "ab_-.")
        k = S.cint("hasnum", 0, 1)
        if k:
            v = S.choose("v", [0, 3, 10, 105, 48000, 1234567])
            S.check("the index written is read back", fu.find_index_in_name(head + str(v)) == v)
        elif len(head):
            S.check("no index, no number", fu.find_index_in_name(head) is None)
    elif kind == "roundtrip":
        v = S.int("v", 0, 120)
        nm = S.string("a", 1, "ab_019") + "_" + str(v)
        S.check("index of a numbered name", fu.find_index_in_name(nm) == v)
