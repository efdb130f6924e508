"""C09: elements are addressed through the array's own offset and strides, or densely only when the array is contiguous."""
import collections
from sweep import *
from core import pmap
import checks.c08 as c08

CFG = ["float64", "str[3]", "int16", "bool", "complex64", "float16", "datetime64[Seconds]", "float64+int32", "bool+float64"]
FIELDS = {"offset", "strides", "buffer", "shape", "flags", "dtype"}


def stem(a):
    return a.split("@")[0]


def simple(s):
    """A symbol whose value is a plain loop counter."""
    return s.k == "u" and s.a[-1] in ("rng", "ix", "loaded")


def judge(it, o, acc):
    """(verdict, detail) for one access."""
    kind, ty, ptr, val, f, span, fc, facts = acc
    b, ix = base_of(ptr)
    ids = ident(b, it)
    if len(ids) != 1 or None in ids:
        return "address not resolved to one array", None
    w, nm = next(iter(ids))
    if w != "arr":
        return "into a new array", None
    me = stem(nm)
    fields, unknown, moving = flow(it, ptr)
    foreign = sorted(a + "." + f for a, f in fields if f in ("strides", "offset") and stem(a) != me)
    own = any(f == "strides" and stem(a) == me for a, f in fields)
    direct = [s.a for s in leaves(ptr) if s.k == "u" and len(s.a) == 2 and s.a[1] in ("strides", "offset") and s.a[0].__class__ is str and stem(s.a[0]) != me]
    for a in sorted(steps(it, ptr)):
        if stem(a) != me:
            return "foreign", "an index is multiplied by a stride of another array (%s)" % a
    if direct:
        return "foreign", "the address uses the %s of another array (%s)" % (direct[0][1], direct[0][0])
    if foreign and any(x.endswith("strides") for x in foreign) and not unknown:
        return "foreign", "the address is computed from %s, not from the array's own strides" % ", ".join(foreign)
    fresh = "@=" in nm or "@copy" in nm
    if not fresh and not unknown and not any(f == "offset" and stem(a) == me for a, f in fields):
        return "offset", "the address does not include the array's offset"
    if own:
        return "through its strides", None
    if unknown or foreign:
        return "position not determined", None
    bulk = kind.startswith(("slice", "copy"))
    if not bulk and moving and (o.dname(nm) or "").startswith("str"):
        moving = flow(it, element(ptr))[2]
    if not bulk and not moving:
        return "first element", None
    if bulk and val is not None and val.k == "k" and val.a[0] <= 1:
        return "first element", None
    if fresh or nm in fc or me in fc:
        return "densely, contiguous", None
    mine = {how for a, how in facts if stem(a) == me}
    if mine == {"one stride"}:
        return "dense", "elements are taken at consecutive addresses although only one stride of the array was tested"
    if mine:
        return "densely, after a test of its layout", None
    return "dense", "elements are taken at consecutive addresses although nothing establishes that the array is contiguous"


def element(ptr):
    """The address of the element of which a character is accessed: without the last counted step of a single character."""
    p = ptr
    while p.k == "t" and p.a[0] in ("tp", "as"):
        p = p.a[1]
    return p.a[1] if p.k == "t" and p.a[0] == "padd" and p.a[3] == 4 else ptr


def stride_of(v):
    """Name of the array one of whose strides v is, possibly scaled by a constant."""
    while v.k == "t" and v.a[0] in ("as", "Div", "Neg"):
        v = v.a[1]
    if v.k == "t" and v.a[0] == "idx":
        b = v.a[1]
        if b.k == "u" and len(b.a) == 2 and b.a[1] == "strides" and b.a[0].__class__ is str:
            return b.a[0]
    return None


def steps(it, ptr):
    """The arrays whose strides multiply an index in a summand of the address."""
    out, seen, work = set(), set(), [ptr]
    while work and len(seen) < 600:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "t":
            if x.a[0] == "padd":
                work += [x.a[1], x.a[2]]
            elif x.a[0] in ("Add", "Sub", "as", "Neg"):
                work += [y for y in x.a[1:] if isinstance(y, Val)]
            elif x.a[0] == "Mul":
                for y in x.a[1:3]:
                    n = stride_of(y)
                    if n:
                        out.add(n)
                    elif y.k == "P":
                        out |= {m for m in map(stride_of, it.deps.get(y) or y.a[1] or ()) if m}
        elif x.k == "P":
            work += list(x.a[1] or it.deps.get(x, ()))
        elif x.k == "u" and x.a[-1] == "sum":
            work += [y for y in it.deps.get(x, ())]
    return out


def leaves(v):
    """The symbols a value is computed from; what is read from array memory counts as one unknown value."""
    out, work, seen = set(), [v], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "t" and x.a[0] == "ld":
            out.add(mk("u", "loaded"))
        elif x.k in ("u", "P"):
            out.add(x)
        else:
            todo = list(x.a)
            while todo:
                y = todo.pop()
                if isinstance(y, Val):
                    work.append(y)
                elif isinstance(y, (tuple, frozenset)):
                    todo.extend(y)
    return out


def flow(it, ptr):
    """(array fields the address is computed from, unknown parts?, does it depend on a counter?)"""
    fields, unknown, moving = set(), False, False
    seen, done, work = set(), set(), [ptr]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 600:
            return fields, True, True
        for s in leaves(x):
            if s in done:
                continue
            done.add(s)
            if s.k == "u" and len(s.a) == 2 and s.a[1] in FIELDS and s.a[0].__class__ is str:
                fields.add(s.a)
            elif simple(s):
                moving = True
            elif s.k == "P" and s.a[1] is None and it.deps.get(s):
                moving = True
                work.extend(it.deps[s])
            elif s.k in ("u", "P") and it.deps.get(s):
                unknown = unknown or s.k == "u"
                work.extend(it.deps[s])
            else:
                unknown = True
    return fields, unknown, moving


class Layout(Sweep):
    def rec(self, it, fr, st, kind, ty, ptr, val, span):
        if ty is None:
            return
        fc, sf = set(), set()
        for k, f in st.facts.items():
            if k.__class__ is not Val or k.k != "t" or f.__class__ is not frozenset or len(f) != 1:
                continue
            if k.a[0] == "contig":
                if f == frozenset((1,)):
                    fc.add(k.a[1])
                continue
            if k.a[0] == "ovf":
                continue
            one = k.a[0] in ("Eq", "Ne") and any(stride_of(x) for x in k.a[1:3] if isinstance(x, Val))
            for s in leaves(k):
                if s.k == "u" and len(s.a) == 2 and s.a[0].__class__ is str:
                    if s.a[1] == "strides":
                        sf.add((s.a[0], "one stride" if one else "strides"))
                    elif s.a[1] == "flags":
                        sf.add((s.a[0], s.a[1]))
        self.acc.append((kind, ty, ptr, val, fr.path, span, frozenset(fc), frozenset(sf)))


def job(x):
    level, name, cfg, steps = x
    prog, D, enums, fns = G
    dts = cfg.split("+")
    o = Layout(D, dts)
    try:
        r = run(prog, D, fns[level][name], dts, enums, steps, obs=o)
    except RecursionError:
        return level, name, cfg, "not interpreted", {}, []
    if r is None:
        return level, name, cfg, "no arguments of this shape", {}, []
    it, o, res = r
    if len(dts) > 1 and len(o.names) < 2:
        return level, name, cfg, "one array only", {}, []
    c, bad = collections.Counter(), []
    for a in o.acc:
        v, d = judge(it, o, a)
        if d is None:
            c[v] += 1
        elif level == "py" and not is_py(a[4]):
            c["imprecise"] += 1
        else:
            bad.append((v, a[0], a[4], a[5], d, show(a[2], 7)[:160]))
    return level, name, cfg, "budget" if res == "budget" else "complete" if res else "no path returns", dict(c), bad


def check(prog, rep):
    global G
    D = Dtypes(prog)
    E, P = entries(prog), py_entries(prog)
    G = (prog, D, enums_of(prog), {"rs": E, "py": P})
    thorough = rep.tier == "thorough"
    steps = 1_000_000 if thorough else 150_000
    cfgs = c08.SINGLE + c08.PAIRS if thorough else CFG
    touching = [n for n in sorted(P) if thorough or c08.raw(prog, P[n], set())]
    rep.count("array functions called from the Python layer", len(E))
    rep.count("functions of the Python layer that handle raw element pointers", len(touching))
    jobs = [("rs", n, c, steps) for n in sorted(E) for c in cfgs] + [("py", n, c, steps) for n in touching for c in cfgs]
    found = {}
    for lv, n, cfg, s, c, bad in pmap(job, jobs):
        rep.count("runs " + s)
        for k, v in c.items():
            rep.count("accesses " + k, v)
            if k in ("through its strides", "densely, contiguous", "densely, after a test of its layout", "first element"):
                rep.obl += v
                rep.done += v
        for v, kind, f, span, d, sh in bad:
            found.setdefault((v, kind, f, span, d), []).append((n, cfg, sh))
    for (v, kind, f, span, d), xs in found.items():
        rep.obl += 1
        rep.violation("layout:%s:%s:%s" % (v, f, kind), "%s in %s (%s): %s; reached from %s with %s arrays; address %s" % (kind, f, span, d, xs[0][0], xs[0][1], xs[0][2]))
    rep.rule = ("abstract interpretation of every array function reachable from Python with symbolic arrays: the address of an element access contains no offset or stride of another array, includes the array's own offset, and "
                "either its strides or, when elements are taken at consecutive addresses, follows a test that the array is contiguous")
    rep.floor("array functions called from the Python layer", 300)
    rep.floor("accesses through its strides", 3000)
    rep.floor("accesses densely, contiguous", 1000)
