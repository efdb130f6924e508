"""C01: dtype promotion and casting rules are NumPy's, for every pair of bool/numeric dtypes."""
from interp import *
from arrays import *
from dt import ORACLE, alts


class PyStrs(Observer):
    """Python arguments that are dtype names: extraction to a Rust string gives the known name."""

    def __init__(self, names):
        self.names = names      # symbol -> python string

    def on_call(self, it, fr, st, fn, args, span):
        p = fn.get("res", fn["path"])
        if p.endswith("PyAnyMethods<'py>>::extract") and fn["args"] and fn["args"][-1].split("::")[-1] in ("String", "&str", "PyBackedStr"):
            v = args[0]
            if v.k == "R":
                v = it.pointee(st, v)
            if v.k == "u" and v.a[0] in self.names:
                return adt(RES, 0, mk("str", self.names[v.a[0]]))
        return None


def check(prog, rep):
    rep.rule = ("abstract interpretation of promote_dtype, promote_types and can_cast on every pair of the 14 bool/numeric dtypes "
                "(dtypes constant, everything else symbolic); each derived result is compared with NumPy %s's tables" % ORACLE["numpy"])
    rep.level = "abstract-interpretation"
    D = Dtypes(prog)
    P = ORACLE["promote"]
    f = prog.one("rumpy::array::dtype::promote_dtype")
    g = prog.one("rumpy::python::dtype::promote_types")
    c = prog.one("rumpy::python::dtype::can_cast")
    for a in NUMERIC:
        for b in NUMERIC:
            want = P[a][b]
            it = Interp(prog)
            h = dict(D.heap)
            h[("X", 0)] = D.val[a]
            h[("X", 1)] = D.val[b]
            r = it.run(f, [X(0), X(1)], heap=h)
            got = sorted({D.kind_of(y, r[0].heap, r[0].facts) for y in alts(r[1])}) if r else ["panic"]
            judge(rep, "promote:%s,%s" % (a, b), "promote_dtype(%s, %s) gives %%s; NumPy's promotion gives %s" % (a, b, want), got, want)
            it = Interp(prog, PyStrs({"d1": a, "d2": b}))
            r = it.run(g, [mk("u", "d1"), mk("u", "d2")], heap=dict(D.heap))
            judge(rep, "promote_types:%s,%s" % (a, b), "promote_types(%s, %s) gives %%s; NumPy gives %s" % (a, b, want), strs(r), want)
            for mode in sorted(ORACLE["cast"]):
                want = "True" if ORACLE["cast"][mode][a][b] else "False"
                it = Interp(prog, PyStrs({"d1": a, "d2": b}))
                r = it.run(c, [mk("u", "d1"), mk("u", "d2"), mk("str", mode)], heap=dict(D.heap))
                judge(rep, "can_cast:%s,%s,%s" % (a, b, mode), "can_cast(%s, %s, casting=%r) is %%s; NumPy gives %s" % (a, b, mode, want), strs(r), want)
            want = P[a][b]
    rep.floor("decided", 1000)


def strs(r):
    if r is None:
        return ["panic"]
    out = set()
    for x in alts(r[1]):
        if x.k == "A" and x.a[0] == RES:
            if x.a[1] == 1:
                out.add("error")
                continue
            x = x.a[2][0]
        if x.k == "str":
            out.add(x.a[0])
        elif x.k == "k":
            out.add("True" if x.a[0] else "False")
        else:
            out.add("undetermined")
    return sorted(out)


def judge(rep, key, text, got, want):
    if any(g.startswith("undetermined") or g.startswith("one of") for g in got):
        rep.count("undecided")
        return
    rep.count("decided")
    rep.ob(key, got == [want], text % "/".join(got), sample=text % "/".join(got))
