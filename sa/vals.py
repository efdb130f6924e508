"""Comparison of the classes an operation can store with NumPy's results per class."""
import gzip, json, os
from value import *
from arrays import *

DT = "rumpy::array::dtype::"
_o = None


def oracle():
    global _o
    if _o is None:
        _o = json.load(gzip.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "oracle", "values.json.gz")))
    return _o


def clval(dt, key):
    """Element value of a class key of the table."""
    if dt in CX_D:
        t = CX_D[dt]
        re, im = key[:-1].split("+", 1) if not key.startswith("2^") else (None, None)
        return mk("A", CPX, 0, (cl(t, frozenset((re,))), cl(t, frozenset((im,)))))
    if dt == "bool":
        return K(int(key))
    return cl(RUST[dt], frozenset((key,)))


def want_sets(rdt, s):
    """Per component, the classes NumPy was seen to give."""
    if rdt in CX_D:
        ps = [x[:-1].split("+", 1) for x in s.split(" ")]
        return (frozenset(p[0] for p in ps), frozenset(p[1] for p in ps))
    return (frozenset(s.split(" ")),)


def compare(ev, rep, key, what, name, fn, dts, tab, extra=(), pre=(), only=None, adts=None, args=None, outs=()):
    """One operation and dtype combination: every class row of the table."""
    rdt = tab["dt"]
    und = 0
    for row, s in tab["t"].items():
        ks = row.split("|")
        if only and not only(ks):
            continue
        env = {"arr%d" % i: clval(d, k) for i, (d, k) in enumerate(zip(dts, ks))}
        out = ev.apply(name, fn, adts or dts, env, rdt, pre=pre, extra=extra, args=args, outs=outs)
        if not out:
            und += 1
            continue
        want = want_sets(rdt, s)
        for (g, comp), v in out.items():
            loop = g[2].split("::")[-1]
            if v is None:
                und += 1
                continue
            if v == "panic":
                rep.ob("%s:panic" % key, False, "%s panics for element classes %s (in %s); NumPy gives %s" % (what, row, loop, s))
                continue
            try:
                got = sets(v, rdt) if comp is None else (tocl(v, CX_D[rdt]),)
            except (ValueError, KeyError):
                und += 1
                continue
            if got is None or len(got) != (len(want) if comp is None else 1):
                und += 1
                continue
            w = want if comp is None else (want[comp],)
            if rdt in CX_D and any("nan" in x for x in want):
                continue        # which component of an undefined complex result is NaN is not compared
            if rdt == "bool":
                got = tuple(frozenset("0" if c == "0" else "1" if c == "1" else "other" for c in x) if not (x >= frozenset("01")) else frozenset("01") for x in got)
            if rdt in CX_D:      # the sign of a zero component is not compared
                w = tuple(frozenset("0" if c == "-0" else c for c in x) for x in w)
                got = tuple(frozenset("0" if c == "-0" else c for c in x) for x in got)
            ok = all(a <= b for a, b in zip(w, got))
            rep.count("class rows")
            rep.ob("%s:%s" % (key, loop), ok, "%s of element classes %s stores a value in {%s} in %s; NumPy gives %s" % (
                what, row, "; ".join(",".join(sorted(x)) for x in got), loop, s), sample="%s: %s -> %s" % (what, row, s))
    if und:
        rep.count("undecided rows", und)
        rep.count("undecided combinations")
        if os.environ.get("VDEBUG"):
            print("undecided", key, und)
    return und
