"""C03: a dtype keeps its identity across names, type strings, sizes, equality, limits and the array interface."""
import struct
from interp import *
from arrays import *
from dt import ORACLE, alts
from checks.c01 import PyStrs

PYARR = "rumpy::python::pyarray::PyRumpyArray"
EQUIV = {"q": "l", "Q": "L"}      # the 64-bit format characters: same size and signedness on every 64-bit platform


def expected(D):
    """NumPy's name, type string, format and item size of every dtype the crate has."""
    out = {}
    for n in D.val:
        if n in ORACLE["meta"]:
            out[n] = ORACLE["meta"][n]
        else:
            base, par = n[:-1].split("[")
            if base in ("datetime64", "timedelta64"):
                u = ORACLE["time_units"][par]
                out[n] = {"name": "%s[%s]" % (base, u), "typestr": "<%s8[%s]" % ("M" if base[0] == "d" else "m", u), "itemsize": 8}
            elif base == "str":
                out[n] = {"itemsize": 4 * int(par), "typestr": "<U" + par}
            else:
                out[n] = {"itemsize": int(par), "typestr": "|S" + par}
    return out


def fval(v):
    """The number a constant term denotes."""
    if v.k == "fl":
        return struct.unpack("<d", struct.pack("<Q", v.a[1]))[0] if v.a[0] == "f64" else struct.unpack("<f", struct.pack("<I", v.a[1]))[0]
    if v.k == "k":
        return v.a[0]
    if v.k == "t" and v.a[0] == "as":
        return fval(v.a[1])
    if v.k == "t" and v.a[0] == "call" and v.a[1].endswith("::from_bits") and v.a[-1].k == "k":
        return struct.unpack("<f", struct.pack("<I", v.a[-1].a[0]))[0] if "f32" in v.a[1] else struct.unpack("<d", struct.pack("<Q", v.a[-1].a[0]))[0]
    return None


def const(v):
    if v.k in ("str", "k"):
        return v.a[0]
    return None


def check(prog, rep):
    rep.rule = ("abstract interpretation, dtype by dtype, of the metadata methods, DType equality, the dtype parsers (DType::from_str, dtype_from_typestr), "
                "finfo/iinfo and __array_interface__; every derived constant is compared with NumPy %s's, and the exported shape, strides and address must be "
                "the array's own" % ORACLE["numpy"])
    D = Dtypes(prog)
    exp = expected(D)

    def one(fn, args, heap=None, obs=None):
        it = Interp(prog, obs) if obs else Interp(prog)
        h = dict(D.heap)
        h.update(heap or {})
        return it.run(fn, args, heap=h)

    def judge(key, what, got, want):
        if got is None:
            rep.count("undecided")
            return
        rep.count("decided")
        rep.ob(key, got == want, "%s is %r, NumPy has %r" % (what, got, want), sample="%s is %r" % (what, got))

    # metadata of every dtype
    for n in sorted(D.val):
        e = exp[n]
        for m, k in (("itemsize", "itemsize"), ("typestr", "typestr"), ("format_char", "format")):
            if k not in e:
                continue
            r = one(prog.one(DTY + "::" + m), [X("d")], {("X", "d"): D.val[n]})
            got = const(r[1]) if r else "panic"
            if m == "format_char" and got is not None:
                got = EQUIV.get(got, got)
            judge("%s:%s" % (m, n), "%s of dtype %s" % (m, n), got, e[k])
    nm = None
    for n in sorted(D.val):
        # the name Python sees
        nm = nm or prog.one(PYARR + "::dtype") if PYARR + "::dtype" in prog.by_path else None
        if nm is not None and "name" in exp[n]:
            r = one(nm, [X("p")], {("X", "p"): mk("A", PYARR, 0, (sym_array("a", D.val[n]),))})
            v = alts(r[1])[0] if r else None
            judge("name:" + n, "name of dtype " + n, nameof(v), exp[n]["name"])
    # the kind the constructors give is the kind the name says, and equality separates kinds
    eq = prog.one("<%s as std::cmp::PartialEq>::eq" % DTY)
    names = sorted(D.val)
    for a in names:
        k = D.kind_of(D.val[a])
        judge("kind:" + a, "kind of the dtype constructed as " + a, k, a)
        for b in names:
            r = one(eq, [X(0), X(1)], {("X", 0): D.val[a], ("X", 1): D.val[b]})
            got = const(r[1]) if r else None
            judge("eq:%s,%s" % (a, b), "dtype equality %s == %s" % (a, b), got, int(a == b))
    # parsers
    fs = prog.one("<%s as std::str::FromStr>::from_str" % DTY)
    ft = prog.one("rumpy::python::creation::dtype_from_typestr")
    for n in names:
        e = exp[n]
        spell = {e["typestr"]}
        if "name" in e:
            spell.add(e["name"])
        if n in ORACLE["meta"] and e["typestr"][1:] not in ("b1",):
            spell.add(e["typestr"][1:])
        for s in sorted(spell):
            r = one(fs, [mk("str", s)])
            judge("parse:%s" % s, "dtype parsed from %r" % s, kindres(D, r), n)
        r = one(ft, [mk("str", e["typestr"])])
        judge("typestr:%s" % e["typestr"], "dtype of foreign data with type string %r" % e["typestr"], kindres(D, r), n)
        if e["typestr"][0] == "<" and e["itemsize"] > 1:
            s = ">" + e["typestr"][1:]
            for f, w in ((fs, "parse"), (ft, "typestr")):
                judge("%s:%s" % (w, s), "dtype for big-endian %r" % s, kindres(D, one(f, [mk("str", s)])), "refused")
    for s in ("<f3", "<i16", "<x8", "<u3"):
        judge("typestr:" + s, "dtype of foreign data with type string %r" % s, kindres(D, one(ft, [mk("str", s)])), "refused")
        judge("parse:" + s, "dtype parsed from %r" % s, kindres(D, one(fs, [mk("str", s)])), "refused")
    # limits
    for cls, table in (("PyFinfo", "finfo"), ("PyIinfo", "iinfo")):
        f = prog.one("rumpy::python::dtype::%s::new" % cls)
        fields = [x[0] for x in prog.adts["rumpy::python::dtype::" + cls].variants[0][2]]
        for n in sorted(ORACLE[table]):
            r = one(f, [mk("u", "d1")], obs=PyStrs({"d1": n}))
            if r is None or r[1].k != "A" or r[1].a[1] != 0:
                judge("%s:%s" % (table, n), "%s(%r)" % (table, n), "refused" if r and r[1].k == "A" else None, "answered")
                continue
            vals = dict(zip(fields, r[1].a[2][0].a[2]))
            for k, want in sorted(ORACLE[table][n].items()):
                if k in vals:
                    judge("%s:%s.%s" % (table, n, k), "%s(%r).%s" % (table, n, k), fval(vals[k]), want)
    # the array interface describes the array itself
    ai = prog.one(PYARR + "::__array_interface__")
    for n in names:
        seen = {}

        class O(Observer):
            def on_call(self, it, fr, st, fn, args, span):
                p = fn.get("res", fn["path"])
                if p.endswith("::set_item") and len(args) >= 3:
                    k = args[-2]
                    k = it.pointee(st, k) if k.k == "R" else k
                    if k.k == "str":
                        seen.setdefault(k.a[0], []).append(args[-1])

        it = Interp(prog, O())
        h = dict(D.heap)
        h[("X", "p")] = mk("A", PYARR, 0, (sym_array("a", D.val[n]),))
        it.run(ai, [X("p"), mk("u", "py")], heap=h)
        for k in ("shape", "strides"):
            vs = seen.get(k)
            got = None if vs is None else "array." + k if all(syms(v) & {("a", f) for f in ("shape", "strides", "offset")} == {("a", k)} for v in vs) else "/".join(
                sorted(f for v in vs for _, f in syms(v) if _ == "a")) or None
            judge("interface:%s:%s" % (n, k), "__array_interface__[%r] of a %s array" % (k, n), got, "array." + k)
        vs = seen.get("typestr")
        got = None if vs is None else const(vs[0]) if vs else None
        if got is not None:
            judge("interface:%s:typestr" % n, "__array_interface__['typestr'] of a %s array" % n, got, exp[n]["typestr"])
        vs = seen.get("data")
        if vs:
            s = syms(vs[0])
            judge("interface:%s:data" % n, "__array_interface__['data'] of a %s array comes from" % n,
                  "+".join(sorted(f for o, f in s if o == "a" and f in ("buffer", "offset", "shape", "strides"))) or None, "buffer+offset")
    rep.floor("decided", 1500)


def nameof(v):
    if v is None:
        return None
    if v.k == "A" and v.a[0] == RES and v.a[1] == 0:
        v = v.a[2][0]
    return const(v)


def kindres(D, r):
    if r is None:
        return "panic"
    got = set()
    for v in alts(r[1]):
        if v.k == "A" and v.a[0] == RES:
            got.add(D.kind_of(v.a[2][0], r[0].heap, r[0].facts) if v.a[1] == 0 else "refused")
        else:
            return None
    got = {"undetermined" if g is None or g.startswith("undet") or g.startswith("one of") else g for g in got}
    if "undetermined" in got:
        return None
    return "/".join(sorted(got))


def syms(v, out=None):
    """The input symbols a value is computed from."""
    out = set() if out is None else out
    if v.k == "u":
        if len(v.a) >= 2:
            out.add((v.a[0], v.a[1]))
    elif v.k == "R":
        if v.a[0] == ("X", "p"):
            for p in v.a[1]:
                if p[0] == "f" and str(p[2]).endswith("RumpyArray") and not str(p[2]).endswith("PyRumpyArray"):
                    out.add(("a", ("buffer", "offset", "shape", "strides", "dtype", "flags")[p[1]]))
    else:
        for x in v.a:
            _syms(x, out)
    return out


def _syms(x, out):
    if isinstance(x, Val):
        syms(x, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _syms(y, out)
