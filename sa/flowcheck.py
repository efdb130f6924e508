"""Driver of the element provenance checks: the table of calls (sa/oracle/flow.json.gz, from tools/mkflow.py) against what the
flow analysis finds in the source."""
import gzip
import json
import os
from collections import Counter
from core import pmap
import poly
from flow import *

ORACLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "oracle", "flow.json.gz")
LAYOUTS = ("c", "f", "s", "r", "n", "m", "b", "d")
WHAT = {"c": "C-contiguous", "f": "Fortran-ordered", "s": "arbitrarily strided", "r": "every-second-row", "n": "row-reversed", "m": "column-reversed", "b": "broadcast (first axis without step)", "d": "broadcast (last axis without step)"}


def cases(pid):
    with gzip.open(ORACLE) as f:
        return [c for c in json.load(f) if c["p"] == pid]


def decode(x):
    if isinstance(x, dict):
        if "a" in x:
            p = PA(x["a"], *x["sh"])
            p.dt = x.get("dt")
            p.data = x.get("data")
            return p
        if "sl" in x:
            return slice(*x["sl"])
        if "el" in x:
            return Ellipsis
        if "t" in x:
            return tuple(decode(y) for y in x["t"])
        return [decode(y) for y in x["l"]]
    return x


def text(x):
    if isinstance(x, dict):
        if "a" in x:
            return "%s%s" % (x["a"], tuple(x["sh"])) + (":" + x["dt"] if x.get("dt") else "") + ("=%s" % x["data"] if x.get("data") is not None else "")
        if "sl" in x:
            return ":".join("" if y is None else str(y) for y in x["sl"])
        if "el" in x:
            return "..."
        if "t" in x:
            return "(" + ",".join(text(y) for y in x["t"]) + ")"
        return "[" + ",".join(text(y) for y in x["l"]) + "]"
    return str(x)


def label(c):
    return "%s(%s)" % (c["fn"], ", ".join(text(x) for x in c["args"]))


def locate(prog, name):
    """The body of a Python-level function or method of the array class."""
    if name.startswith("m:"):
        last = name[2:]
        l = [i for q, xs in prog.by_path.items() if q.startswith("rumpy::python::") and q.rsplit("::", 1)[-1] == last and "PyRumpyArray" in q.rsplit("::", 1)[0] and "PyClass" not in q for i in xs if not i["args"]]
    else:
        mod, last = name.split(".")
        l = [i for i in prog.by_path.get("rumpy::python::%s::%s" % (mod, last), []) if not i["args"]]
        if not l:
            l = [i for q, xs in prog.by_path.items() if q.startswith("rumpy::python::") and q.rsplit("::", 1)[-1] == last and "PyRumpyArray" not in q for i in xs if not i["args"]]
    return l[0] if len(l) == 1 else None


def arrays_in(x, out):
    if isinstance(x, dict):
        if "a" in x:
            out.append(x)
        for y in x.get("t", []) + x.get("l", []):
            arrays_in(y, out)
    return out


def scalar(it, st, x):
    """Value of a Python scalar result."""
    x = it.resolve(st, x)
    for _ in range(6):
        if x.k == "t" and x.a[0] == "out" or x.k == "t" and x.a[0] == "vf" and x.a[2] == 0:
            x = x.a[1]
        elif x.k == "t" and x.a[0] == "call" and "IntoPyObject" in x.a[1]:
            x = x.a[3]
        else:
            break
    return x


class Verdict(Exception):
    pass


def judge(it, o, B, st, v, exp, kind):
    """(verdict, text): 'ok', 'wrong', 'unknown'; alias verdicts separately."""
    res = results(it, st, v)
    if len(res) == 1:
        return judge1(it, o, B, st, res[0], exp, kind)
    out = [judge1(it, o, B, st, r, exp, kind) for r in res]
    if out and all(x[0] == "wrong" for x in out):
        return out[0]
    if out and all(x[0] == "ok" for x in out):
        return out[0]
    return "unknown", "several outcomes: " + "; ".join(sorted(set("%s %s" % x for x in out)))[:200]


def judge1(it, o, B, st, r, exp, kind):
    if r == "error":
        return ("ok", "refused") if "error" in exp else ("wrong", "refused")
    if isinstance(r, tuple):
        x = scalar(it, st, r[1])
        f = flow(x)
        if f is None or x.k in ("u", "P"):
            return "unknown", "result %s" % show(x, 4)[:80]
        if "error" in exp:
            return "wrong", "gives a value where NumPy raises %s" % exp["error"]
        if "list" in exp:
            return "unknown", "scalar"
        if exp["shape"] != []:
            return "wrong", "gives a scalar, expected dimensions %s" % exp["shape"]
        return element(B, x, exp["els"][0], kind, "", it, st)
    if isinstance(r, list):
        if "error" in exp:
            return ("unknown", "list") if any(isinstance(y, tuple) for y in r) else ("wrong", "gives a list where NumPy raises %s" % exp["error"])
        if "list" not in exp:
            return "unknown", "list"
        if len(r) != len(exp["list"]):
            return "wrong", "gives %d arrays, expected %d" % (len(r), len(exp["list"]))
        worst = ("ok", "")
        for i, (y, e) in enumerate(zip(r, exp["list"])):
            j = judge1(it, o, B, st, y, e, kind)
            if j[0] == "wrong":
                return j[0], "item %d: %s" % (i, j[1])
            if j[0] == "unknown":
                worst = j
        return worst
    c = contents(it, st, r, kind == "poly")
    if c is None:
        return "unknown", "dimensions %s strides %s" % (show(r.a[2][2], 3)[:60], show(r.a[2][3], 3)[:60])
    dims, es, buf = c
    if "error" in exp:
        return "wrong", "gives an array of dimensions %s where NumPy raises %s" % (dims, exp["error"])
    if "list" in exp:
        return "unknown", "one array, expected several"
    if dims != exp["shape"]:
        return "wrong", "has dimensions %s, expected %s" % (dims, exp["shape"])
    if es is None:
        return "unknown", "contents"
    worst = ("ok", "")
    fl = flags(it, st, r)
    for bit, order, what in ((1, range(len(dims) - 1, -1, -1), "C"), (2, range(len(dims)), "Fortran")):
        if fl is not None and fl & bit and es and not dense(it, st, r, dims, order):
            return "wrong", "is flagged %s-contiguous although its elements are not consecutive" % what
    for i, (x, e) in enumerate(zip(es, exp["els"])):
        j = element(B, x, e, kind, "element %d " % i, it, st)
        if j[0] == "wrong":
            return j
        if j[0] == "unknown":
            worst = j
    if worst[0] == "ok" and "base" in exp:
        is_view = buf.k == "R" and buf.a[0][0] == "B"
        nm = buf.a[0][1] if is_view else None
        if is_view and nm not in exp["base"]:
            return "alias", "shares memory with its argument %s; NumPy returns a copy" % nm
        if not is_view and buf.k == "R" and exp["base"]:
            return "copy", "is a copy; NumPy returns a view of %s" % ",".join(exp["base"])
    return worst


def flags(it, st, r):
    """The flag bits of an array, if known."""
    x = it.resolve(st, r.a[2][5])
    for _ in range(3):
        if x.k == "A" and len(x.a[2]) == 1:
            x = it.known(st, it.resolve(st, x.a[2][0]))
        elif x.k == "t" and x.a[0] == "bits":
            return x.a[2] if x.a[2].__class__ is int else None
    return x.a[0] if x.k == "k" else None


def dense(it, st, r, dims, order):
    """Are the elements consecutive in this axis order?  Symbolic steps are in general position."""
    ss = it.resolve(st, r.a[2][3])
    if ss.k == "R":
        ss = it.resolve(st, it.pointee(st, ss))
    if ss.k != "A" or len(ss.a[2]) != len(dims):
        return True
    step = itemsize(it, st, r)
    if step is None:
        return True
    for i in order:
        if dims[i] != 1:
            s = it.known(st, it.resolve(st, ss.a[2][i]))
            if s.k == "k" and s.a[0] != step or s.k != "k" and lin_of(s) is None:
                return s.k != "k"
            if s.k != "k":
                return False
        step *= dims[i]
    return True


def want(B, e):
    v = B.made.get(e[0])
    if v is None:
        return None
    a = addresses(v.a[2][1], [d.a[0] for d in v.a[2][2].a[2]], v.a[2][3].a[2])
    return el(e[0], a[e[1]])


def name(B, x):
    if x.k == "t" and x.a[0] == "el":
        v = B.made.get(x.a[1])
        if v is not None:
            a = addresses(v.a[2][1], [d.a[0] for d in v.a[2][2].a[2]], v.a[2][3].a[2])
            hits = [i for i, q in enumerate(a) if q is x.a[2]]
            if hits:
                return "%s.flat[%s]" % (x.a[1], hits[0])
        return "%s at byte %s" % (x.a[1], show(x.a[2], 4).replace("?lin:%s:" % x.a[1], ""))
    return show(x, 3)[:60]


def ITEMS_OF(v):
    t = show(v.a[2][4], 5)
    return next((k for n, k in ITEMS.items() if "<I,%sOps#" % n in t), None)


def atom(B, f):
    w = want(B, f)
    if len(f) > 2 and f[2]:
        c, m = lin_of(w.a[2])
        n = ITEMS_OF(B.made[f[0]]) or 16
        return el(f[0], lin(c + n // 2, m))
    return w


def expr(x, B, d=0):
    """A polynomial as text."""
    t = poly.terms(x)
    if t is None:
        return show(x, 3)[:60]
    if len(t) > 6 or d > 3:
        return "an expression of %d terms" % len(t)

    def fac(a):
        if a.a[0] == "el":
            return name(B, a).replace(".flat", "")
        return "%s(%s)" % (a.a[1], ", ".join(expr(y, B, d + 1) for y in a.a[2:]))

    def term(m, c):
        s = "*".join(sorted(fac(a) + ("^%d" % k if k > 1 else "") for a, k in m))
        return s if c == 1 and s else "-" + s if c == -1 and s else ("%.6g" % float(c)) + ("*" + s if s else "")
    return " + ".join(sorted(term(m, c) for m, c in t.items())) or "0"


def polyelement(B, x, e, pre):
    t = poly.terms(x)
    if t is None:
        f = flow(x)
        if f is not None and not f[1] and x.k == "t" and x.a[0] == "dep":
            ws = flow(poly.value(poly.build(e, lambda f: atom(B, f))))[0]
            if ws - f[0]:
                return "wrong", pre + "does not depend on %s" % sorted(name(B, y) for y in ws - f[0])[:4]
        return "unknown", pre + show(x, 3)[:60]
    w = poly.build(e, lambda f: atom(B, f))
    if poly.key(poly.strip(t)) == poly.key(poly.strip(w)):
        if getattr(B, "exact", False) and poly.rounded(x):
            return "wrong", pre + "is rounded to a floating type on the way (%s)" % expr(x, B)
        return "ok", ""
    ws, xs = flow(poly.value(w)), flow(x)
    if ws is None or xs is None:
        return "unknown", pre + "value"
    return "wrong", pre + "is %s, expected %s" % (expr(x, B), expr(poly.value(w), B))


def element(B, x, e, kind, pre, it=None, st=None):
    if x is None:
        return "unknown", pre + "value"
    if kind == "poly":
        try:
            if e.__class__ is list:
                return polyelement(B, x, e, pre)
            if x.k == "A" and x.a[0] == "num_complex::Complex":
                for y, q, what in ((x.a[2][0], e["re"], "real part "), (x.a[2][1], e["im"], "imaginary part ")):
                    j = polyelement(B, y, q, pre + what)
                    if j[0] != "ok":
                        return j
                return j
            j = polyelement(B, x, e["re"], pre + "real part ")
            if j[0] == "ok" and e["im"]:
                return "wrong", pre + "has no imaginary part"
            return j
        except poly.Big:
            return "unknown", pre + "too large"
    f = flow(x)
    if f is None:
        return "unknown", pre + show(x, 3)[:60]
    if kind == "copy":
        if e[0] == "const":
            if x.k in ("k", "fl"):
                n = fval(x)
                if n is None:
                    return "unknown", pre + "constant"
                return ("ok", "") if n == e[1] else ("wrong", pre + "is %s, expected %s" % (n, e[1]))
            if not f[0]:
                return "unknown", pre + "constant"
            return ("wrong", pre + "is %s, expected the constant %s" % (name(B, x), e[1])) if not f[1] and x.a[0] == "el" else ("unknown", pre + "may vary")
        w = want(B, e)
        if x is w:
            return "ok", ""
        if x.k in ("k", "fl"):
            return "wrong", pre + "is the constant %s, expected %s" % (fval(x), name(B, w))
        if x.k == "t" and x.a[0] == "el":
            return "wrong", pre + "is %s, expected %s" % (name(B, x), name(B, w))
        if w not in f[0]:
            return "wrong", pre + "is computed from %s, expected a copy of %s" % ([name(B, y) for y in f[0]][:4], name(B, w))
        if x.k == "t" and x.a[0] == "dep" and len(x.a) > 3 and f[0] == {w}:
            return "wrong", pre + "is %s rounded to a floating type on the way" % name(B, w)
        return "unknown", pre + "computed"
    ws = frozenset(want(B, y) for y in e)
    if None in ws:
        return "unknown", pre
    miss = ws - f[0]
    if miss:
        return "wrong", pre + "does not depend on %s" % sorted(name(B, y) for y in miss)[:4]
    extra = f[0] - ws
    if extra and not f[1]:
        return "wrong", pre + "depends on %s as well" % sorted(name(B, y) for y in extra)[:4]
    if extra:
        return "unknown", pre + "may depend on more"
    return "ok", ""


G = None


def one(c, lay, dt=None, steps=600_000):
    try:
        return one_(c, lay, dt, steps)
    except Exception as e:          # a construct the interpreter has no rule for
        return "unknown", "not interpreted: %s %s" % (type(e).__name__, e), 0, ()


def one_(c, lay, dt, steps):
    prog, D = G
    fn = locate(prog, c["fn"])
    if fn is None:
        return "gone", "", 0, ()
    args = [decode(x) for x in c["args"]]
    full, k = [], 0
    for j in range(fn["argc"]):
        if fn["locals"][j + 1][0].startswith("pyo3::Python<"):
            full.append(None)
        elif k < len(args):
            full.append(args[k])
            k += 1
        else:
            full.append(None)
    for j, a in enumerate(full):
        if a.__class__ is int and a < 0 and fn["locals"][j + 1][0] in ("usize", "std::option::Option<usize>"):
            return ("ok", "refused", 0, ()) if "error" in c["exp"] else ("wrong", "refused", 0, ())
    cls = (poly.PInterp, poly.PFlow) if c["kind"] == "poly" else (FInterp, Flow)
    it, o, r, B = fcall(prog, D, fn, full, dt=dt or c.get("dt", "float64"), contig=lay, max_steps=steps, cls=cls)
    if r == "budget":
        return "unknown", "budget", it.steps, ()
    if r is None:
        # no path returns
        if "error" in c["exp"]:
            return "panic", "panics", it.steps, ()
        return "wrong", "never returns: %s" % (", ".join(sorted(set("%s at %s" % x for x in o.panics)))[:120]), it.steps, ()
    st, v = r
    if c["kind"] == "store":
        return judge_store(it, o, B, st, v, c["exp"]) + (it.steps, ())
    exp = c["exp"]
    if c["kind"] == "poly" and "error" not in exp:
        B.exact = c.get("exact") and (dt or c.get("dt", "float64")).startswith(("int", "uint"))
        if (dt or c.get("dt", "")).startswith("complex"):
            exp = exp["c"]
    j = judge(it, o, B, st, v, exp, c["kind"])
    return j + (it.steps, tuple(sorted(set((n, str(s)) for n, _, _, s in o.stores))))


def job(xs):
    return [(k, lay) + one(c, lay.split("/")[0], (lay.split("/") + [None])[1]) for k, c, lay in xs]


def layouts_of(c):
    if c.get("lay"):
        return tuple(c["lay"])
    arrs = [x for y in c["args"] for x in arrays_in(y, [])]
    free = [x for x in arrs if x.get("data") is None]
    if not free:
        return ("c",)
    if all(len(x["sh"]) < 2 for x in free):
        return ("c", "s", "n", "b")
    return LAYOUTS


def sweep(prog, cs, dts=(), D=None):
    global G
    G = (prog, D or Dtypes(prog))
    jobs, cur = [], []
    for k, c in enumerate(cs):
        lays = layouts_of(c)
        for lay in list(lays) + [l + "/" + d for d in dts for l in (("c", "s", "b", "d", "n", "m") if c["kind"] == "poly" else ("c", "s")) if l in lays and "dt" not in c and "lay" not in c and d not in c.get("nodt", ()) and not (c["kind"] == "poly" and d.startswith("complex") and "error" not in c["exp"] and "c" not in c["exp"])]:
            cur.append((k, c, lay))
            if len(cur) >= 6:
                jobs.append(cur)
                cur = []
    if cur:
        jobs.append(cur)
    return [x for l in pmap(job, jobs) for x in l]


def run(prog, rep, pid, dts=(), panics=False):
    cs = cases(pid)
    fns = Counter()
    for k, lay, v, t, steps, muts in sweep(prog, cs, dts):
        c = cs[k]
        rep.count("calls analysed")
        rep.count("basic blocks interpreted", steps)
        fns[c["fn"]] += 1
        key = "%s [%s]" % (label(c), lay)
        if v == "gone":
            rep.ob("gone:" + c["fn"], False, "%s is not found: the anchor of the rule is gone" % c["fn"])
            continue
        if lay in c.get("skip", ()) or c.get("skip") == "*":
            rep.count("calls outside the property (known limit)")
            continue
        if v in ("ok",):
            rep.ob(key, True, sample={"call": label(c), "layout": WHAT[lay[0]] + (" " + lay[2:] if lay[1:] else ""), "result": "refused as by NumPy" if t == "refused" else "every element traced to its source"})
            rep.count("calls decided")
        elif v in ("wrong", "alias", "copy") or v == "panic" and not panics:
            rep.ob(key, False, "%s with %s arguments: the result %s" % (label(c), WHAT[lay[0]] + (" " + lay[2:] if lay[1:] else ""), t))
        else:
            rep.count("calls " + ("undetermined" if v == "unknown" else v))
        for n, s in muts:
            rep.ob("mutates:" + key, False, "%s writes into the memory of its argument %s (%s)" % (label(c), n, s))
    rep.count("functions", len(fns))
    return cs
