"""Interprocedural conditional constant propagation with value numbering over MIR.

A forward dataflow analysis: every block has one abstract state, states are
joined where control flow joins, branch edges that the state excludes are not
followed.  Calls of functions whose MIR is known are analysed in the calling
context (bounded depth, recursion cut).  No path is enumerated and no solver is
used; values are hash-consed terms, so equality is identity.
"""
import heapq
from collections import Counter
import classes as CLS


class Val:
    __slots__ = ("k", "a", "depth", "_syms")

    def __init__(self, k, a):
        self.k = k
        self.a = a
        d = 0
        for x in a:
            if x.__class__ is Val:
                if x.depth > d:
                    d = x.depth
            elif x.__class__ is tuple:
                for y in x:
                    if y.__class__ is Val and y.depth > d:
                        d = y.depth
                    elif y.__class__ is tuple:
                        for z in y:
                            if z.__class__ is Val and z.depth > d:
                                d = z.depth
            elif x.__class__ is frozenset:
                for y in x:
                    if y.__class__ is Val and y.depth > d:
                        d = y.depth
        self.depth = d + 1
        self._syms = None

    def syms(self):
        """The redefinable symbols (u and P values) this value mentions."""
        if self._syms is None:
            s = set()
            if self.k in ("u", "P"):
                s.add(self)
            for x in self.a:
                if x.__class__ is Val:
                    s |= x.syms()
                elif x.__class__ in (tuple, frozenset):
                    for y in x:
                        if y.__class__ is Val:
                            s |= y.syms()
                        elif y.__class__ is tuple:
                            for z in y:
                                if z.__class__ is Val:
                                    s |= z.syms()
            self._syms = frozenset(s)
        return self._syms

    def __repr__(self):
        return show(self)


_table = {}


def mk(k, *a):
    key = (k,) + a
    v = _table.get(key)
    if v is None:
        v = _table[key] = Val(k, a)
    return v


def reset_values():
    pass


def K(c):
    return mk("k", c)


TRUE, FALSE = K(1), K(0)
UNIT = mk("A", "()", 0, ())


def tup(*xs):
    return mk("A", "()", 0, tuple(xs))


def adt(path, vi, *fs):
    return mk("A", path, vi, tuple(fs))


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = adt(OPT, 0)


def some(v):
    return adt(OPT, 1, v)


MAXD = 18


def cl(ty, cs):
    """A value known only by its class (see classes.py)."""
    if ty in INTW and len(cs) == 1:
        lo, hi = CLS.BYN[ty][next(iter(cs))]
        if lo == hi:
            return K(lo)
    return mk("cl", ty, cs)


def tocl(v, ty):
    """Class set of a value of type ty (the whole type if nothing is known)."""
    if v.k == "cl":
        return v.a[1] if v.a[0] == ty else (CLS.cast(v.a[0], ty, v.a[1]) or CLS.ALL[ty])
    if v.k == "k":
        return frozenset((CLS.of(ty, v.a[0] if ty in INTW else float(v.a[0])),))
    if v.k == "fl" and ty in CLS.FL:
        return frozenset((CLS.of(ty, CLS.fbits(v.a[0], v.a[1])),))
    if v.k == "P" and v.a[1]:
        out = frozenset()
        for x in v.a[1]:
            out |= tocl(x, ty)
        return out
    return CLS.ALL[ty]


BOOLOPS = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge", "contig", "not"}
BOOLFNS = {"eq", "ne", "lt", "le", "gt", "ge", "is_empty", "is_nan", "is_c_contiguous", "is_f_contiguous", "is_some", "is_none"}


def isbool(v):
    """A term that is 0 or 1 for sure."""
    return v.k == "t" and (v.a[0] in BOOLOPS or v.a[0] == "call" and v.a[1].rsplit("::", 1)[-1] in BOOLFNS)


def hascl(v, d=0):
    if v.k == "cl":
        return True
    if v.k == "A" and d < 4:
        return any(hascl(x, d + 1) for x in v.a[2])
    if v.k == "P" and v.a[1] is not None and d < 4:
        return any(hascl(x, d + 1) for x in v.a[1])
    if v.k == "t" and v.a[0] in ("&", "&&") and d < 4:
        return hascl(v.a[1], d + 1)
    return False


def T(op, *args):
    return mk("t", op, *args)


def show(v, d=4):
    if not isinstance(v, Val):
        return repr(v)
    if d == 0:
        return ".."
    if v.k == "k":
        return str(v.a[0])
    if v.k == "str":
        return repr(v.a[0])
    if v.k == "A":
        return "%s#%s(%s)" % (v.a[0].split("::")[-1], v.a[1], ", ".join(show(x, d - 1) for x in v.a[2]))
    if v.k == "u":
        return "?" + ":".join(str(x) if not isinstance(x, Val) else show(x, d - 1) for x in v.a)
    if v.k == "P":
        return "phi%s{%s}" % (v.a[0][:2], ", ".join(sorted(show(x, d - 1) for x in v.a[1])) if v.a[1] is not None else "*")
    if v.k == "R":
        return "&%s%s" % (_showobj(v.a[0], d), "".join("." + ":".join(show(y, d - 1) if isinstance(y, Val) else str(y) for y in p) for p in v.a[1]))
    if v.k == "F":
        return "fn " + v.a[1].split("::")[-1]
    if v.k == "t":
        return "%s(%s)" % (v.a[0], ", ".join(show(x, d - 1) for x in v.a[1:]))
    return "%s%s" % (v.k, tuple(show(x, d - 1) for x in v.a))


def _showobj(o, d):
    return "<" + ",".join(show(x, d - 1) if isinstance(x, Val) else str(x) for x in o) + ">"


class State:
    __slots__ = ("frames", "heap", "facts")

    def __init__(self, frames=(), heap=None, facts=None):
        self.frames = frames
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        fr = self.frames
        if fr:
            fr = fr[:-1] + (dict(fr[-1]),)
        return State(fr, dict(self.heap), dict(self.facts))


class Frame:
    __slots__ = ("inst", "key", "depth", "parent", "bb", "blocks", "locals", "site", "tag")

    def __init__(self, inst, key, depth, parent, site):
        self.inst = inst
        self.key = key
        self.depth = depth
        self.parent = parent
        self.bb = 0
        self.site = site
        self.tag = None

    @property
    def path(self):
        return self.inst["path"]

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f)
            f = f.parent
        return out


class Budget(Exception):
    pass


ARRF = ("buffer", "offset", "shape", "strides", "dtype", "flags")
INTW = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "isize": (64, 1), "i128": (128, 1),
        "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "usize": (64, 0), "u128": (128, 0), "bool": (1, 0), "char": (32, 0)}
FLOATS = {"f16": 2, "f32": 4, "f64": 8, "half::f16": 2}
SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "half::f16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8,
         "usize": 8, "isize": 8, "num_complex::Complex<f32>": 8, "num_complex::Complex<f64>": 16, "u128": 16, "i128": 16, "()": 0}
for _t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"):
    SIZES["std::num::Wrapping<%s>" % _t] = SIZES[_t]
for _t in ("faer::complex_native::c64", "faer::complex_native::c64_impl::c64"):
    SIZES[_t] = 16
for _t in ("faer::complex_native::c32", "faer::complex_native::c32_impl::c32"):
    SIZES[_t] = 8


def wrap(c, ty):
    w = INTW.get(ty)
    if w is None:
        return c
    c &= (1 << w[0]) - 1
    if w[1] and c >> (w[0] - 1):
        c -= 1 << w[0]
    return c


class Observer:
    """Override the hooks a check needs.  Return values are ignored unless stated."""

    def on_load(self, it, fr, st, ptr, ty, span):
        pass

    def on_store(self, it, fr, st, ptr, ty, val, span):
        pass

    def load_val(self, it, st, ptr, ty):
        """The value a load yields, if the check knows it (ty is None when the access is through a reference)."""
        return None

    def on_call(self, it, fr, st, fn, args, span):
        """Return a Val to replace the call by that result, or None."""
        return None

    def on_ext(self, it, fr, st, path, fn, args, span):
        pass

    seqs = False             # keep one symbolic element for collected vectors of arrays and pointers

    def ret_ext(self, it, fr, st, path, args, site, retty):
        """Return a Val for the result of a call nothing is known about, or None."""
        return None

    def on_invoke(self, it, fr, st, inst, args, span):
        """Return a Val to stand for the result of calling this known body, or None to analyse it."""
        return None

    def on_assert(self, it, fr, st, cond, kind, span):
        pass

    def on_agg(self, it, fr, st, path, variant, fields, names, span):
        pass

    def on_write(self, it, fr, st, obj, projs, val, span):
        pass

    def on_drop(self, it, fr, st, place_val, ty, span):
        pass

    def on_panic(self, it, fr, st, path, span):
        pass

    def inline(self, it, fr, inst, args):
        """False: treat the call as opaque."""
        return True


# wrappers without representation of their own
WRAPPERS = ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling")


class Interp:
    def __init__(self, prog, obs=None, max_depth=60, max_steps=3_000_000):
        self.p = prog
        self.obs = obs or Observer()
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.max_rec = 1
        self.steps = 0
        self.analysed = Counter()   # instance key -> times analysed
        self.opaque = Counter()
        self.cut = Counter()
        self.created = set()
        self.spec = 0           # inside one of several possible callees of a virtual call
        self.promo = {}
        self.deps = {}
        self._rpo = {}

    # ---------------------------------------------------------------- facts
    def possible(self, st, v):
        """Set of constants v may have, or None if unknown."""
        if v.k == "k":
            return frozenset((v.a[0],))
        if v.k == "cl":
            return CLS.singles(v.a[0], v.a[1]) if v.a[0] in INTW else None
        s = st.facts.get(v)
        if s is None and v.k == "P" and v.a[1] is not None:
            s = frozenset(x.a[0] for x in v.a[1] if x.k == "k")
            if len(s) != len(v.a[1]):
                return None
        return s

    def assume(self, st, v, vals):
        """Restrict v to the constants in vals.  False if that is impossible."""
        if v.k == "k":
            return v.a[0] in vals
        if v.k == "cl":   # not an identity: nothing to remember
            b = [CLS.BYN[v.a[0]][c] for c in v.a[1] if c != CLS.NAN]
            return any(lo <= x <= hi for x in vals for lo, hi in b)
        if v.k == "t" and v.a[0] == "Not" and vals <= {0, 1}:
            return self.assume(st, v.a[1], frozenset(1 - x for x in vals))
        cur = self.possible(st, v)
        new = vals if cur is None else (cur & vals)
        if not new:
            return False
        ne = st.facts.get(("ne", v))
        if ne:
            new = new - ne
            if not new:
                return False
        if new == cur:
            if v in st.facts:
                return True
        st.facts[v] = new
        if len(new) == 1:
            c = next(iter(new))
            imp = st.facts.get(("imp", v, c))
            if imp:
                for kk, fs in imp:
                    if kk.__class__ is tuple:
                        if kk not in st.facts:
                            st.facts[kk] = fs
                        elif kk[0] in ("eq", "ne"):
                            st.facts[kk] = st.facts[kk] | fs
                    else:
                        if not self.assume(st, kk, fs):
                            return False
            if v.k == "t":
                op = v.a[0]
                if op == "Eq" and c == 1 or op == "Ne" and c == 0:
                    x, y = v.a[1], v.a[2]
                    px, py = self.possible(st, x), self.possible(st, y)
                    if px is not None and not self.assume(st, y, px):
                        return False
                    if py is not None and not self.assume(st, x, py):
                        return False
                    st.facts[("eq", x)] = st.facts.get(("eq", x), frozenset()) | {y}
                    st.facts[("eq", y)] = st.facts.get(("eq", y), frozenset()) | {x}
                elif (op == "Eq" and c == 0 or op == "Ne" and c == 1):
                    x, y = v.a[1], v.a[2]
                    for x, y in ((x, y), (y, x)):
                        if y.k == "k":
                            st.facts[("ne", x)] = st.facts.get(("ne", x), frozenset()) | {y.a[0]}
                            px = self.possible(st, x)
                            if px is not None:
                                px = px - {y.a[0]}
                                if not px:
                                    return False
                                st.facts[x] = px
                elif op == "BitAnd" and c == 1:
                    for x in v.a[1:3]:
                        if not self.assume(st, x, frozenset((1,))):
                            return False
                elif op == "BitOr" and c == 0:
                    for x in v.a[1:3]:
                        if not self.assume(st, x, frozenset((0,))):
                            return False
        for y in st.facts.get(("eq", v), ()):
            if self.possible(st, y) != new:
                if not self.assume(st, y, new):
                    return False
        return True

    def known(self, st, v):
        """v as a constant if the facts determine it, else v."""
        if v.k == "k":
            return v
        s = self.possible(st, v)
        if s is not None and len(s) == 1:
            return K(next(iter(s)))
        if v.k == "t":
            if v.a[0] == "Not":
                x = self.known(st, v.a[1])
                if x.k == "k" and x.a[0] in (0, 1):
                    return K(1 - x.a[0])
            elif v.a[0] in ("Eq", "Ne") and len(v.a) == 3:
                x, y = v.a[1], v.a[2]
                if v.a[0] == "Eq":
                    n = st.facts.get(T("Ne", x, y))
                    if n is not None and len(n) == 1:
                        return K(1 - next(iter(n)))
                else:
                    n = st.facts.get(T("Eq", x, y))
                    if n is not None and len(n) == 1:
                        return K(1 - next(iter(n)))
                px, py = self.possible(st, x), self.possible(st, y)
                if px is not None and py is not None and not (px & py):
                    return K(0 if v.a[0] == "Eq" else 1)
                if px is not None and px == py and len(px) == 1:
                    return K(1 if v.a[0] == "Eq" else 0)
                if y in st.facts.get(("eq", x), ()):
                    return K(1 if v.a[0] == "Eq" else 0)
                if y.k == "k" and y.a[0] in st.facts.get(("ne", x), ()):
                    return K(0 if v.a[0] == "Eq" else 1)
        return v

    def redefine(self, st, sym):
        """sym is about to denote a new value: drop what is known of the old one."""
        if sym in self.created:
            dead = [k for k, f in st.facts.items() if _mentions(k, f, sym)]
            for k in dead:
                del st.facts[k]
        else:
            self.created.add(sym)

    # ---------------------------------------------------------------- memory
    def getobj(self, st, obj):
        k = obj[0]
        if k == "L":
            fr = st.frames
            if obj[1] < len(fr):
                v = fr[obj[1]].get(obj[3])
                if v is not None:
                    return v
            return mk("u", "undef", obj[2], obj[3])
        if k == "I":
            return obj[1]
        v = st.heap.get(obj)
        if v is not None:
            return v
        if k == "D":
            v = self.obs.load_val(self, st, obj[1], None)
            if v is not None:
                return v
            return obj[1].a[1] if obj[1].k == "t" and obj[1].a[0] == "&" else T("*", obj[1])
        if k == "PR":
            return self.promo[obj]
        return mk("u", "obj") if k == "?" else mk("u", "o", *[x for x in obj if not isinstance(x, tuple)])

    def setobj(self, st, obj, v):
        if obj[0] == "L":
            d = obj[1]
            fr = st.frames
            if d >= len(fr):
                return
            if d == len(fr) - 1:
                fr[d][obj[3]] = v
            else:
                nd = dict(fr[d])
                nd[obj[3]] = v
                st.frames = fr[:d] + (nd,) + fr[d + 1:]
        else:
            st.heap[obj] = v

    def field(self, st, v, i, vi=None):
        k = v.k
        if k == "A":
            if vi is not None and v.a[1] != vi:
                return mk("u", "bottom")
            fs = v.a[2]
            return fs[i] if i < len(fs) else mk("u", "nofield")
        if k == "C":
            return v.a[1][i] if i < len(v.a[1]) else mk("u", "nofield")
        if k == "R":
            return v  # Box / Unique / NonNull wrappers around a pointer
        if k == "P" and v.a[1] is not None:
            alts = [x for x in v.a[1] if x.k != "A" or vi is None or x.a[1] == vi]
            if vi is None:
                ds = st.facts.get(T("discr", v))
                if ds is not None:
                    alts = [x for x in alts if x.k != "A" or self.discr_of(x) in ds]
            outs = []
            for x in alts:
                y = self.field(st, x, i, vi)
                if y not in outs:
                    outs.append(y)
            if len(outs) == 1:
                return outs[0]
            if outs and all(x.k in ("k", "A", "F") or _isptr(x) for x in outs):
                return self.mkphi((v.a[0], "f", vi, i), outs)
            return self.mkp((v.a[0], "f", vi, i), v)
        if k == "t" and v.a[0] == "wrap1":
            return v.a[1]
        if vi is not None:
            return T("vf", v, vi, i)
        return T("f", v, i)

    def mkphi(self, key, vals):
        """Join of constant-like alternatives (at most one per enum variant)."""
        byv = {}
        plain = []
        for v in vals:
            if v.k == "P" and v.a[1] is not None:
                for x in v.a[1]:
                    if x.k == "A":
                        byv.setdefault((x.a[0], x.a[1], len(x.a[2])), []).append(x)
                    elif x not in plain:
                        plain.append(x)
            elif v.k == "A":
                byv.setdefault((v.a[0], v.a[1], len(v.a[2])), []).append(v)
            elif v not in plain:
                plain.append(v)
        for (p, vi, _), xs in byv.items():
            x = xs[0]
            for y in xs[1:]:
                x = self.joinval(x, y, key + (vi,), False)
            plain.append(x)
        if len(plain) == 1:
            return plain[0]
        if len(plain) > 24:
            return self.mkp(key, *plain)
        return mk("P", key, frozenset(plain))

    def mkp(self, key, *srcs):
        """A join whose alternatives are not kept; where it came from is."""
        p = mk("P", key, None)
        self.note(p, *srcs)
        return p

    def note(self, v, *srcs):
        """v was computed from srcs (provenance only)."""
        d = self.deps.get(v)
        if d is None:
            d = self.deps[v] = set()
        for s in srcs:
            if s is not v:
                d.add(s)
        return v

    def prov(self, v):
        """Array properties, as (array, field) pairs, that v may have been computed from."""
        out, seen, work = set(), set(), [v]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for s in x.syms():
                if s.k == "u" and len(s.a) == 2 and s.a[1] in ARRF:
                    out.add(s.a)
                elif s not in seen:
                    work.extend(self.deps.get(s, ()))
                    seen.add(s)
        return out

    def joinval(self, a, b, key, header):
        if a is b:
            return a
        if a.k == "P" and a.a[0] == key and a.a[1] is None:
            self.note(a, b)
            return a
        if b.k == "P" and b.a[0] == key and b.a[1] is None:
            self.note(b, a)
            return b
        if a.k == "A" and b.k == "A" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return mk("A", a.a[0], a.a[1], tuple(self.joinval(x, y, key + (i,), header) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
        if a.k == "C" and b.k == "C" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            return mk("C", a.a[0], tuple(self.joinval(x, y, key + (i,), header) for i, (x, y) in enumerate(zip(a.a[1], b.a[1]))))
        if a.k == "cl" or b.k == "cl":
            ty = a.a[0] if a.k == "cl" else b.a[0]
            if all(x.k in ("cl", "k", "fl") or (x.k == "P" and x.a[1] and all(y.k == "k" for y in x.a[1])) for x in (a, b)):
                return cl(ty, tocl(a, ty) | tocl(b, ty))
            return self.mkp(key, a, b)
        if (isbool(a) or isbool(b)) and all(isbool(x) or (x.k == "k" and x.a[0] in (0, 1)) or (x.k == "P" and x.a[1] is not None and all(y.k == "k" and y.a[0] in (0, 1) for y in x.a[1])) for x in (a, b)):
            p = mk("P", key, frozenset((K(0), K(1))))
            self.note(p, a, b)
            return p
        ca = a.k in ("k", "A", "F", "str") or _isptr(a) or (a.k == "P" and a.a[1] is not None)
        cb = b.k in ("k", "A", "F", "str") or _isptr(b) or (b.k == "P" and b.a[1] is not None)
        if ca and cb:
            # at loop headers let enums and booleans vary, widen integers
            def consts(v):
                return [v] if v.k != "P" else list(v.a[1])
            al = consts(a) + consts(b)
            if header and any(x.k == "k" and x.a[0] not in (0, 1) for x in al):
                return self.mkp(key, a, b)
            if max(x.depth for x in al) > MAXD:
                return self.mkp(key, a, b)
            return self.mkphi(key, [a, b])
        return self.mkp(key, a, b)

    def readp(self, st, obj, projs):
        v = self.getobj(st, obj)
        vi = None
        for p in projs:
            if p[0] == "d":
                vi = p[1]
                continue
            if p[0] == "f":
                v = self.field(st, v, p[1], vi)
                vi = None
            elif p[0] == "i":
                v = self.index(st, v, p[1])
            elif p[0] == "ci":
                v = self.index(st, v, K(p[1]) if not p[2] else T("fromend", K(p[1])))
            elif p[0] == "ss":
                v = T("sub", v, K(p[1]), K(p[2]), K(int(p[3])))
            else:
                v = mk("u", "proj")
        if vi is not None:
            return v
        return v

    def index(self, st, v, i):
        if v.k == "u" and v.a[0] == "seq":
            return v.a[2]
        if v.k == "A" and v.a[0] == "[]" and i.k == "k" and 0 <= i.a[0] < len(v.a[2]):
            return v.a[2][i.a[0]]
        if v.k == "t" and v.a[0] == "*" and v.a[1].k == "t" and v.a[1].a[0] in ("rawslice", "vslice"):
            r = self.obs.load_val(self, st, v.a[1], v.a[1].a[3] if v.a[1].a[0] == "rawslice" else None)
            if r is not None:
                return r
        if v.k == "A" and v.a[0] == "[]" and v.a[2] and all(hascl(x) or x.k in ("k", "fl") for x in v.a[2]) and any(hascl(x) for x in v.a[2]):
            r = v.a[2][0]
            for x in v.a[2][1:]:
                r = self.joinval(r, x, ("idx",), False)
            return r
        return T("idx", v, i)

    def writep(self, fr, st, obj, projs, val, site):
        if not projs:
            self.setobj(st, obj, val)
            return
        base = self.getobj(st, obj)
        nv = self.update(st, base, list(projs), val, site)
        self.setobj(st, obj, nv)

    def update(self, st, v, projs, val, site):
        if not projs:
            return val
        p = projs[0]
        if p[0] == "d":
            if v.k == "A" and v.a[1] == p[1]:
                return self.update(st, v, projs[1:], val, site)
            return self.note(mk("u", "w", *site), v, val)
        if p[0] == "f":
            i = p[1]
            ad = p[2] if len(p) > 2 else None
            if v.k not in ("A", "C"):
                ex = self.expand(st, v, ad)
                if ex is None:
                    return self.note(mk("u", "w", *site), v, val)
                v = ex
            if v.k == "C":
                fs = list(v.a[1])
                if i >= len(fs):
                    return self.note(mk("u", "w", *site), v, val)
                fs[i] = self.update(st, fs[i], projs[1:], val, site)
                return mk("C", v.a[0], tuple(fs))
            fs = list(v.a[2])
            while len(fs) <= i:
                fs.append(mk("u", "undef", "f"))
            fs[i] = self.update(st, fs[i], projs[1:], val, site)
            return mk("A", v.a[0], v.a[1], tuple(fs))
        if p[0] in ("i", "ci") and v.k == "A" and v.a[0] == "[]":
            ix = p[1] if p[0] == "i" else K(p[1])
            if ix.k == "k" and 0 <= ix.a[0] < len(v.a[2]) and not (p[0] == "ci" and p[2]):
                fs = list(v.a[2])
                fs[ix.a[0]] = self.update(st, fs[ix.a[0]], projs[1:], val, site)
                return mk("A", "[]", 0, tuple(fs))
        return self.note(mk("u", "w", *site), v, val)

    def expand(self, st, v, adtpath):
        a = self.p.adts.get(adtpath) if adtpath else None
        if a is None or a.is_enum:
            return None
        n = len(a.variants[0][2])
        return mk("A", adtpath, 0, tuple(self.field(st, v, i) for i in range(n)))

    def discr_of(self, v):
        """Discriminant constant of a concrete ADT value."""
        a = self.p.adts.get(v.a[0])
        if a is None:
            return v.a[1]
        return a.variants[v.a[1]][1]

    # ---------------------------------------------------------------- join
    def join(self, s1, s2, fkey, bb, depth, header):
        """Join s2 into s1 (both owned).  Returns (state, changed relative to s1)."""
        changed = False
        redefined = set()
        deltas = []  # (phi, v1, v2)
        frames = []
        n = min(len(s1.frames), len(s2.frames))
        for d in range(n):
            a, b = s1.frames[d], s2.frames[d]
            if a is b:
                frames.append(a)
                continue
            out = {}
            same = True
            for l, v in a.items():
                w = b.get(l)
                if w is None:
                    same = False
                    continue
                if v is w:
                    out[l] = v
                    continue
                j = self.joinval(v, w, (fkey, bb, d, l), header)
                out[l] = j
                if j is not v:
                    same = False
                if j.k == "P":
                    redefined.add(j)
                    if d == n - 1:
                        deltas.append((j, v, w))
            frames.append(a if same else out)
            if not same:
                changed = True
        heap = {}
        if s1.heap is s2.heap:
            heap = s1.heap
        else:
            hch = False
            for o, v in s1.heap.items():
                w = s2.heap.get(o)
                if w is None:
                    w = v if o[0] not in ("D",) else self.getobj(s2, o)
                if v is w:
                    heap[o] = v
                else:
                    j = self.joinval(v, w, (fkey, bb, "h", o), header)
                    heap[o] = j
                    if j is not v:
                        hch = True
                    if j.k == "P":
                        redefined.add(j)
            for o, w in s2.heap.items():
                if o not in s1.heap:
                    v = self.getobj(s1, o) if o[0] == "D" else w
                    j = v if v is w else self.joinval(v, w, (fkey, bb, "h", o), header)
                    heap[o] = j
                    hch = True
                    if j.k == "P":
                        redefined.add(j)
            if hch:
                changed = True
            else:
                heap = s1.heap
        f1, f2 = s1.facts, s2.facts
        if f1 is f2:
            facts = f1
        else:
            facts = {}
            for k, x in f1.items():
                y = f2.get(k)
                if y is None:
                    if k.__class__ is tuple:
                        continue
                    # other side may determine it as a constant fact
                    if k.k == "t":
                        kv = self.known(s2, k)
                        if kv.k == "k":
                            y = frozenset((kv.a[0],))
                    if y is None:
                        continue
                if x is y or x == y:
                    facts[k] = x
                elif k.__class__ is tuple:
                    i = x & y
                    if i:
                        facts[k] = i
                else:
                    u = x | y
                    if len(u) <= 64 and not (u == frozenset((0, 1)) and k.k == "t" and k.a[0] != "discr"):
                        facts[k] = u
            for k, y in f2.items():
                if k not in f1 and k.__class__ is not tuple and k.k == "t":
                    kv = self.known(s1, k)
                    if kv.k == "k":
                        c = kv.a[0]
                        u = y | {c}
                        if len(u) == 1:
                            facts[k] = u
            # implications: the value of a joined variable tells which side we came from
            if deltas:
                d1 = [(k, x) for k, x in f1.items() if not (k.__class__ is tuple and k[0] == "imp") and facts.get(k) != x]
                d2 = [(k, x) for k, x in f2.items() if not (k.__class__ is tuple and k[0] == "imp") and facts.get(k) != x]
                if redefined:
                    d1 = [t for t in d1 if not _mentions_any(t[0], t[1], redefined)]
                    d2 = [t for t in d2 if not _mentions_any(t[0], t[1], redefined)]
                if len(d1) > 200:
                    d1 = d1[:200]
                if len(d2) > 200:
                    d2 = d2[:200]
                s1d, s2d = frozenset(d1), frozenset(d2)
                for j, v, w in deltas:
                    cond = self.condkey(j)
                    if cond is None:
                        continue
                    sv, sw = self.sigs(s1, v), self.sigs(s2, w)
                    for c in (sv or frozenset()) | (sw or frozenset()):
                        sets = []
                        if sv is None or c in sv:
                            sets.append(s1d | self.impof(s1, v, c, redefined))
                        if sw is None or c in sw:
                            sets.append(s2d | self.impof(s2, w, c, redefined))
                        it = sets[0] if len(sets) == 1 else (sets[0] & sets[1])
                        it = frozenset(t for t in it if facts.get(t[0]) != t[1])
                        if it:
                            facts[("imp", cond, c)] = it
                        else:
                            facts.pop(("imp", cond, c), None)
            if facts == f1:
                facts = f1
            else:
                changed = True
        if not changed:
            return s1, False
        return State(tuple(frames), heap, facts), True

    def condkey(self, j):
        if j.a[1] is None:
            return None
        ks = {x.k for x in j.a[1]}
        if ks == {"k"}:
            return j
        if ks == {"A"}:
            return T("discr", j)
        return None

    def sigs(self, st, v):
        if isbool(v):
            return st.facts.get(v) or frozenset((0, 1))
        if v.k == "k":
            return frozenset((v.a[0],))
        if v.k == "A":
            return frozenset((self.discr_of(v),))
        if v.k == "P" and v.a[1] is not None:
            c = self.condkey(v)
            if c is None:
                return None
            s = st.facts.get(c)
            al = frozenset(x.a[0] if x.k == "k" else self.discr_of(x) for x in v.a[1])
            return al if s is None else (al & s)
        return None

    def impof(self, st, v, c, redefined=()):
        if isbool(v):
            f = frozenset((c,))
            return frozenset() if redefined and _mentions_any(v, f, redefined) else frozenset(((v, f),))
        if v.k == "P" and v.a[1] is not None:
            ck = self.condkey(v)
            if ck is not None:
                return st.facts.get(("imp", ck, c), frozenset())
        return frozenset()

    # ---------------------------------------------------------------- places
    def place(self, fr, st, pl, span=None, want="r"):
        """(obj, projs, raw pointer or None, type of the place)."""
        local, projs = pl
        obj = ("L", fr.depth, fr.key, local)
        cur = ()
        ty = fr.inst["locals"][local][0]
        raw = None
        for p in projs:
            k = p[0]
            if k == "*":
                v = self.readp(st, obj, cur) if raw is None else self.loadraw(fr, st, raw, ty, cur, span)
                v = self.resolve(st, v)
                rawp = ty.startswith("*")
                ty = strip_ptr(ty)
                if v.k == "R":
                    obj, cur, raw = v.a[0], v.a[1], None
                elif rawp:
                    obj, cur, raw = ("D", v), (), v
                else:
                    obj, cur, raw = ("D", v), (), None
            elif k == "f":
                if p[4] not in WRAPPERS:
                    cur = cur + (("f", p[1], p[4]),)
                ty = p[3]
            elif k == "d":
                cur = cur + (("d", p[1]),)
            elif k == "i":
                iv = self.known(st, st.frames[-1].get(p[1]) or mk("u", "undef", p[1]))
                ty = elem_ty(ty)
                e = self.slice_elem(obj, cur, iv) if obj[0] == "D" else None
                if e is not None:
                    obj, cur, raw = ("D", e), (), e
                else:
                    cur = cur + (("i", iv),)
            elif k == "ci":
                cur = cur + (("ci", p[1], p[2]),)
                ty = elem_ty(ty)
            elif k == "ss":
                cur = cur + (("ss", p[1], p[2], p[3]),)
            else:
                cur = cur + (("?",),)
        return obj, cur, raw, ty

    def slice_elem(self, obj, cur, i):
        return None

    def resolve(self, st, v):
        """A pointer value whose alternatives the facts or a wrapper narrow to one."""
        if v.k == "P" and v.a[1] is not None and len(v.a[1]) == 1:
            return next(iter(v.a[1]))
        if v.k == "A" and len(v.a[2]) >= 1 and (v.a[0].startswith("std::boxed::Box") or v.a[0].startswith("std::ptr::")):
            return self.resolve(st, v.a[2][0])
        return v

    def loadraw(self, fr, st, p, ty, cur, span):
        self.obs.on_load(self, fr, st, p, ty, span)
        v = self.obs.load_val(self, st, p, ty)
        if v is None:
            v = T("ld", p, ty)
        vi = None
        for q in cur:
            if q[0] == "f":
                v = self.field(st, v, q[1], vi)
                vi = None
            elif q[0] == "d":
                vi = q[1]
            elif q[0] == "i":
                v = T("idx", v, q[1])
            else:
                v = mk("u", "proj")
        return v

    def read(self, fr, st, pl, span=None):
        local, projs = pl
        if not projs:
            v = st.frames[-1].get(local)
            return v if v is not None else mk("u", "undef", fr.key, local)
        obj, cur, raw, ty = self.place(fr, st, pl, span)
        if raw is not None:
            return self.loadraw(fr, st, raw, ty, cur, span)
        return self.readp(st, obj, cur)

    def write(self, fr, st, pl, val, site, span):
        local, projs = pl
        if val.depth > MAXD:
            val = self.note(mk("u", "deep", fr.key, site), val)
        if not projs:
            st.frames[-1][local] = val
            return
        obj, cur, raw, ty = self.place(fr, st, pl, span, "w")
        if raw is not None:
            self.obs.on_store(self, fr, st, raw, ty, val, span)
            return
        self.obs.on_write(self, fr, st, obj, cur, val, span)
        self.writep(fr, st, obj, cur, val, (fr.key, site))

    # ---------------------------------------------------------------- operands
    def operand(self, fr, st, o, span=None):
        pl = o.get("c")
        if pl is None:
            pl = o.get("m")
        if pl is not None:
            return self.read(fr, st, pl, span)
        k = o.get("k")
        if k is None:
            return mk("u", "rtcheck")
        return self.const(fr, st, k)

    def const(self, fr, st, k):
        if "fn" in k:
            f = k["fn"]
            return mk("F", f.get("id"), f.get("res", f["path"]), tuple(f.get("res_args", f["args"])))
        if "closure" in k:
            return mk("C", k["closure"], ())
        if "promoted" in k:
            return self.promoted(fr, k["promoted"], k)
        if "static" in k:
            return mk("R", ("ST", k["static"]), (), 0)
        ty = k["ty"]
        if "bits" in k:
            b = int(k["bits"])
            if ty in INTW:
                return K(wrap(b, ty))
            if ty in FLOATS:
                return mk("fl", ty, b)
            return self.adt_const(ty, b)
        if "str" in k:
            return mk("str", k["str"])
        if "bytes" in k:
            return mk("R", ("CB", ty, tuple(k["bytes"])), (), 0)
        if k.get("zst"):
            if ty in self.p.adts:
                return mk("A", ty, 0, ())
            return UNIT if ty == "()" else mk("A", ty, 0, ())
        if "named" in k:
            c = self.p.consts.get(k["named"])
            if c is not None:
                return self.constbody(k["named"], c)
            return T("const", k["named"], tuple(k.get("named_args", ())))
        if "cty" in k:
            try:
                return K(int(k["cty"]))
            except ValueError:
                return T("const", k["cty"], ())
        return T("const", ty, ())

    def adt_const(self, ty, b):
        a = self.p.adts.get(ty)
        if a is None:
            return T("bits", ty, b)
        if a.is_enum:
            if b in a.by_discr and not a.variants[a.by_discr[b]][2]:
                return mk("A", ty, a.by_discr[b], ())
            return T("bits", ty, b)
        fs = a.variants[0][2]
        if len(fs) == 1:
            fty = fs[0][1]
            if fty in INTW:
                return mk("A", ty, 0, (K(wrap(b, fty)),))
            return mk("A", ty, 0, (self.adt_const(fty, b),))
        return T("bits", ty, b)

    def promoted(self, fr, idx, k):
        f = fr
        pr = f.inst.get("promoted")
        if pr is None or idx >= len(pr):
            return T("promo", k.get("of"), idx)
        return self.constbody((f.inst.get("id"), f.inst.get("path"), idx), dict(pr[idx], path=f.inst["path"] + "::promoted", id=None, promoted=None))

    def constbody(self, key, body):
        ck = ("PR", key)
        if ck in self.promo:
            return self.promo[ck]
        self.promo[ck] = T("const", str(key), ())
        sub = Interp(self.p, Observer(), self.max_depth)
        sub.promo = self.promo
        body = dict(body)
        body.setdefault("id", None)
        f = Frame(body, ("const", key), 0, None, None)
        st = State(({},), {}, {})
        try:
            r = sub.run_body(f, st)
        except Budget:
            r = None
        v = T("const", str(key), ())
        if r is not None:
            st, v = r
            st = State((f.tag or {},), st.heap, st.facts)
            v = self.lift(st, v, key, 0)
        self.promo[ck] = v
        return v

    def lift(self, st, v, key, d):
        """Turn references to a constant body's locals into references to immortal objects."""
        if d > 8:
            return v
        if v.k == "R" and v.a[0][0] in ("L", "H"):
            obj = ("PR", key, v.a[0], d)
            if obj not in self.promo:
                self.promo[obj] = mk("u", "lifting")
                self.promo[obj] = self.lift(st, self.getobj(st, v.a[0]), key, d + 1)
            return mk("R", obj, v.a[1], 0)
        if v.k == "A":
            return mk("A", v.a[0], v.a[1], tuple(self.lift(st, x, key, d + 1) for x in v.a[2]))
        return v

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, rv, span, site):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1], span)
        if k in ("ref", "refmut", "rawmut", "rawconst"):
            obj, cur, raw, ty = self.place(fr, st, rv[1], span)
            if raw is not None and not cur:
                return raw
            if raw is not None:
                return T("pfld", raw, _pk(cur))
            if obj[0] == "D" and not cur:
                return obj[1]   # &*p is p
            return mk("R", obj, cur, 1 if k in ("refmut", "rawmut") else 0)
        if k == "cast":
            return self.cast(fr, st, rv, span)
        if k == "bin":
            a = self.known(st, self.operand(fr, st, rv[2], span))
            b = self.known(st, self.operand(fr, st, rv[3], span))
            if (a.k == "cl" or b.k == "cl") and rv[2] == rv[3]:
                return self.clbin(rv[1], a, b, rv[4], True)
            r = self.binop(st, rv[1], a, b, rv[4])
            if r.k == "P" and rv[1] == "Cmp" and r.a[0] == ("clcmp",):
                r = mk("P", (fr.key, site, "cmp"), r.a[1])
                self.redefine(st, r)
            return r
        if k == "un":
            a = self.known(st, self.operand(fr, st, rv[2], span))
            return self.unop(st, rv[1], a, rv[3])
        if k == "discr":
            v = self.read(fr, st, rv[1], span)
            return self.discr(st, v, rv[2])
        if k == "agg":
            ops = [self.operand(fr, st, o, span) for o in rv[2]]
            kind = rv[1]
            if kind[0] == "adt":
                a = self.p.adts.get(kind[1])
                vi = a.by_name.get(kind[2], 0) if a else variant_guess(kind[2])
                self.obs.on_agg(self, fr, st, kind[1], kind[2], ops, kind[3], span)
                return mk("A", kind[1], vi, tuple(ops))
            if kind[0] == "tuple":
                return mk("A", "()", 0, tuple(ops))
            if kind[0] == "array":
                return mk("A", "[]", 0, tuple(ops)) if len(ops) <= 64 else mk("u", "arr", fr.key, site)
            if kind[0] == "closure":
                return mk("C", kind[1], tuple(ops))
            if kind[0] == "rawptr":
                return ops[0]
            return mk("u", "agg", fr.key, site)
        if k == "repeat":
            v = self.operand(fr, st, rv[1], span)
            try:
                n = int(rv[2].split("_")[0])
            except ValueError:
                n = -1
            if 0 <= n <= 16:
                return mk("A", "[]", 0, (v,) * n)
            return T("repeat", v, rv[2])
        if k == "tls":
            return mk("R", ("ST", rv[1]), (), 0)
        return mk("u", "rv", fr.key, site)

    def discr(self, st, v, ty):
        if v.k == "A":
            return K(self.discr_of(v))
        d = T("discr", v)
        if v.k == "P" and v.a[1] is not None and d not in st.facts and all(x.k == "A" for x in v.a[1]):
            st.facts[d] = frozenset(self.discr_of(x) for x in v.a[1])
        return self.known(st, d)

    def cast(self, fr, st, rv, span):
        kind, o, frm, to = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(fr, st, o, span)
        if v.k == "cl" and to in CLS.ALL:
            if kind.startswith("Transmute"):
                return v if frm == to else cl(to, CLS.ALL[to])
            r = CLS.cast(frm, to, v.a[1])
            return cl(to, r if r is not None else CLS.ALL[to])
        if kind.startswith("IntToFloat") and to in CLS.FL and self.known(st, v).k == "k":
            return cl(to, frozenset((CLS.of(to, CLS.tofl(to, self.known(st, v).a[0])),)))
        if kind.startswith(("PointerCoercion", "PtrToPtr", "FnPtrToPtr", "Transmute", "Subtype")):
            if kind.startswith("Transmute") and not (is_ptr(frm) or is_ptr(to)) and frm != to:
                if v.k in ("k", "fl"):
                    return T("transmute", v, to)
                if frm in SIZES or to in SIZES:
                    return T("transmute", v, to)
            return v
        if kind.startswith("IntToInt"):
            v = self.known(st, v)
            if v.k == "k":
                return K(wrap(v.a[0], to))
            if v.k == "A":  # enum as integer
                return K(wrap(self.discr_of(v), to))
            if frm in INTW and to in INTW:
                if frm == to:
                    return v
                # a widening cast keeps the value; usize<->isize keep bits
                return T("as", v, frm, to)
            if frm not in INTW:
                return T("as", self.discr(st, v, frm), "discr", to)
            return T("as", v, frm, to)
        if kind.startswith(("PointerExposeProvenance", "PointerWithExposedProvenance")):
            return T("paddr", v)
        return T("as", v, frm, to)

    def clbin(self, op, a, b, ty, same=False):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if ty not in CLS.ALL:
            return mk("u", "clop")
        A = tocl(a, ty)
        if base in ("Shl", "Shr") and b.k == "cl" and b.a[0] != ty:
            return tup(cl(ty, CLS.ALL[ty]), cl("bool", CLS.ALL["bool"])) if op.endswith("WithOverflow") else cl(ty, CLS.ALL[ty])
        B = tocl(b, ty)
        if base in self.CMP:
            r = CLS.compare(ty, base, A, B, same)
            return cl("bool", frozenset(str(x) for x in r))
        if base == "Cmp":
            r = CLS.compare(ty, "Lt", A, B, same), CLS.compare(ty, "Gt", A, B, same), CLS.compare(ty, "Eq", A, B, same)
            al = [mk("A", "std::cmp::Ordering", i, ()) for i, x in ((0, r[0]), (1, r[2]), (2, r[1])) if 1 in x]
            return al[0] if len(al) == 1 else mk("P", ("clcmp",), frozenset(al))
        out, ov = CLS.binop(ty, base, A, B)
        r = cl(ty, out) if out else mk("u", "bottom")
        return tup(r, cl("bool", frozenset(str(x) for x in ov))) if op.endswith("WithOverflow") else r

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, st, op, a, b, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        over = op.endswith("WithOverflow")
        if op == "Offset":
            return padd(a, b, size_of(strip_ptr(ty)))
        if a.k == "cl" or b.k == "cl" or ((a.k == "fl" or b.k == "fl") and a.k in ("fl", "k", "P") and b.k in ("fl", "k", "P")):
            return self.clbin(op, a, b, ty)
        if a.k == "k" and b.k == "k" and ty in INTW:
            r, ov = fold(base, a.a[0], b.a[0], ty)
            if r is not None:
                r = K(r)
                return tup(r, K(int(ov))) if over else r
        if base in self.CMP:
            isf = ty in FLOATS or ty.startswith("f")
            if not isf:
                if a is b:
                    return K(1 if base in ("Eq", "Le", "Ge") else 0)
                if base == "Gt":
                    r = T("Lt", b, a)
                elif base == "Ge":
                    r = T("Not", T("Lt", a, b))
                elif base == "Le":
                    r = T("Not", T("Lt", b, a))
                elif base == "Ne":
                    x, y = order(a, b)
                    r = T("Not", T("Eq", x, y))
                elif base == "Eq":
                    x, y = order(a, b)
                    if ty == "bool":
                        if y.k == "k":
                            return x if y.a[0] == 1 else T("Not", x)
                        if x.k == "k":
                            return y if x.a[0] == 1 else T("Not", y)
                    r = T("Eq", x, y)
                else:
                    r = T("Lt", a, b)
                return self.known(st, r)
            return self.known(st, T("f" + base, a, b))
        if base in ("BitAnd", "BitOr") and ty == "bool":
            for x, y in ((a, b), (b, a)):
                if x.k == "k":
                    if base == "BitAnd":
                        return y if x.a[0] else FALSE
                    return TRUE if x.a[0] else y
        isf = ty in FLOATS
        if not isf and b.k == "k" and b.a[0] == 0 and base in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr"):
            r = a
        elif not isf and a.k == "k" and a.a[0] == 0 and base == "Add":
            r = b
        elif not isf and b.k == "k" and b.a[0] == 1 and base in ("Mul", "Div"):
            r = a
        elif not isf and a.k == "k" and a.a[0] == 1 and base == "Mul":
            r = b
        else:
            if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
                a2, b2 = order(a, b)
            else:
                a2, b2 = a, b
            r = T(base, a2, b2, ty)
        if over:
            return tup(r, T("ovf", base, a, b, ty) if r.k == "t" else FALSE)
        return r

    def unop(self, st, op, a, ty):
        if a.k == "cl" or a.k == "fl" and op == "Neg":
            A = tocl(a, ty)
            if op == "Neg":
                return cl(ty, CLS.neg(ty, A))
            if op == "Not":
                return cl(ty, CLS.bitnot(ty, A)) if ty != "bool" else cl("bool", frozenset("1" if x == "0" else "0" for x in A))
            return mk("u", "clop")
        if op == "Not" and ty == "bool":
            if a.k == "k":
                return K(1 - a.a[0])
            if a.k == "t" and a.a[0] == "Not":
                return a.a[1]
            return T("Not", a)
        if a.k == "k" and ty in INTW:
            if op == "Neg":
                return K(wrap(-a.a[0], ty))
            if op == "Not":
                return K(wrap(~a.a[0], ty))
        if op == "PtrMetadata":
            return T("len", self.pointee(st, a))
        return T(op if op != "Not" else "BitNot", a, ty)

    def pointee(self, st, p):
        """The value a shared reference denotes now."""
        if p.k == "R":
            return self.readp(st, p.a[0], p.a[1])
        if p.k == "str":
            return p
        if p.k == "P" and p.a[1] is not None and all(_isptr(x) for x in p.a[1]):
            return self.mkphi((p.a[0], "*"), [self.readp(st, x.a[0], x.a[1]) for x in sorted(p.a[1], key=show)])
        o = ("D", p)
        return st.heap.get(o) or (p.a[1] if p.k == "t" and p.a[0] == "&" else T("*", p))

    # ---------------------------------------------------------------- bodies
    def rpo(self, inst):
        key = id(inst["blocks"])
        r = self._rpo.get(key)
        if r is not None:
            return r
        blocks = inst["blocks"]
        order_, seen, headers = [], set(), set()
        onstack = set()
        stack = [(0, iter(succ(blocks[0]["t"])))]
        seen.add(0)
        onstack.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m in onstack:
                    headers.add(m)
                if m not in seen:
                    seen.add(m)
                    onstack.add(m)
                    stack.append((m, iter(succ(blocks[m]["t"]))))
                    break
            else:
                stack.pop()
                onstack.discard(n)
                order_.append(n)
        order_.reverse()
        num = {b: i for i, b in enumerate(order_)}
        r = self._rpo[key] = (num, headers, blocks)
        return r

    def run_body(self, fr, st):
        """Analyse one body from entry state st (frame already pushed).
        Returns (state at return with the frame popped, return value) or None if it never returns."""
        inst = fr.inst
        self.analysed[inst.get("key") or inst.get("path")] += 1
        blocks = inst["blocks"]
        num, headers, _ = self.rpo(inst)
        ins = {0: st}
        visits = Counter()
        work = [(0, 0)]
        queued = {0}
        ret = None
        while work:
            _, bb = heapq.heappop(work)
            queued.discard(bb)
            visits[bb] += 1
            if visits[bb] > 40:
                self.cut[("visits", inst["path"])] += 1
                continue
            s = ins[bb].copy()
            fr.bb = bb
            for tgt, ns in self.block(fr, s, bb, blocks[bb]):
                if tgt == -1:
                    v = ns.frames[-1].get(0, UNIT)
                    if fr.key.__class__ is tuple:
                        fr.tag = dict(ns.frames[-1])
                    # project the frame away, keep the return value as a slot
                    ns = State(ns.frames[:-1] + ({0: v},), ns.heap, ns.facts)
                    if ret is None:
                        ret = ns
                    else:
                        ret, _ = self.join(ret, ns, fr.key, "ret", fr.depth, False)
                    continue
                old = ins.get(tgt)
                if old is None:
                    ins[tgt] = ns
                    ch = True
                else:
                    wid = tgt in headers
                    if visits[tgt] > 12:
                        wid = True
                    ins[tgt], ch = self.join(old, ns, fr.key, tgt, fr.depth, wid)
                if ch and tgt not in queued:
                    queued.add(tgt)
                    heapq.heappush(work, (num.get(tgt, 10**6), tgt))
        if ret is None:
            return None
        v = ret.frames[-1][0]
        return State(ret.frames[:-1], ret.heap, ret.facts), v

    def block(self, fr, st, bb, blk):
        self.steps += len(blk["s"]) + 1
        if self.steps > self.max_steps:
            raise Budget()
        si = 0
        for s in blk["s"]:
            si += 1
            k = s[0]
            if k == "=":
                site = (bb, si)
                v = self.rvalue(fr, st, s[2], s[3], site)
                self.write(fr, st, s[1], v, site, s[3])
            elif k == "dead":
                st.frames[-1].pop(s[1], None)
            elif k == "setd":
                pass
            elif k == "cpy":
                a = [self.operand(fr, st, x) for x in s[1:4]]
                self.obs.on_ext(self, fr, st, "intrinsics::copy_nonoverlapping", None, a, None)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "call":
            return self.call_term(fr, st, bb, t)
        if k == "ret":
            return [(-1, st)]
        if k == "assert":
            c = self.known(st, self.operand(fr, st, t[1], t[5]))
            self.obs.on_assert(self, fr, st, c, t, t[5])
            if self.assume(st, c, frozenset((1 if t[2] else 0,))):
                return [(t[4], st)]
            return []
        if k == "drop":
            obj, cur, raw, ty = self.place(fr, st, t[1], None)
            self.obs.on_drop(self, fr, st, (obj, cur), t[3], None)
            return [(t[2], st)]
        return []

    def switch(self, fr, st, t):
        v = self.known(st, self.operand(fr, st, t[1], t[5]))
        ty, tgts, other = t[2], t[3], t[4]
        if v.k == "k":
            c = v.a[0]
            for val, b in tgts:
                if wrap(int(val), ty) == c or int(val) == c:
                    return [(b, st)]
            return [(other, st)]
        neg = False
        if v.k == "t" and v.a[0] == "Not" and ty == "bool":
            v, neg = v.a[1], True
        poss = self.possible(st, v)
        out = []
        seen = set()
        for val, b in tgts:
            c = wrap(int(val), ty) if ty in INTW else int(val)
            if neg:
                c = 1 - c
            seen.add(c)
            if poss is not None and c not in poss:
                continue
            ns = st.copy()
            if self.assume(ns, v, frozenset((c,))):
                out.append((b, ns))
        rest = None
        if ty == "bool":
            rest = frozenset((0, 1)) - seen
        elif poss is not None:
            rest = poss - seen
        elif v.k == "t" and v.a[0] == "discr":
            univ = self.universe(fr, t, v)
            if univ is not None:
                rest = univ - seen
        if rest is not None:
            if rest and self.assume(st, v, rest):
                out.append((other, st))
        elif v.k == "cl":
            b = [CLS.BYN[v.a[0]][c] for c in v.a[1] if c != CLS.NAN]
            if any(lo != hi or lo not in seen for lo, hi in b):
                out.append((other, st))
        else:
            st.facts[("ne", v)] = st.facts.get(("ne", v), frozenset()) | frozenset(seen)
            out.append((other, st))
        return out

    def universe(self, fr, t, v):
        ad = self.discr_ty.get((id(fr.inst["blocks"]), fr.bb)) if hasattr(self, "discr_ty") else None
        if ad is None:
            # find the discr statement in this block
            for s in reversed(fr.inst["blocks"][fr.bb]["s"]):
                if s[0] == "=" and s[2][0] == "discr":
                    ad = strip_generics(s[2][2])
                    break
        a = self.p.adts.get(ad) if ad else None
        if a is None or not a.is_enum:
            return None
        return frozenset(x[1] for x in a.variants)

    # ---------------------------------------------------------------- calls
    def call_term(self, fr, st, bb, t):
        fo, ao, dest, tgt, span = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(fr, st, o, span) for o in ao]
        k = fo.get("k")
        if k is not None and "fn" in k:
            fn = k["fn"]
            fv = None
        else:
            fv = self.operand(fr, st, fo, span)
            fn = None
        argtys = [self.op_ty(fr, o) for o in ao]
        r = self.do_call(fr, st, fn, fv, args, argtys, (bb,), span, self.place_ty(fr, dest))
        if r is None:
            return []
        st, v = r
        if tgt is None:
            return []
        if v is not None:
            self.write(fr, st, dest, v, (bb, "c"), span)
        return [(tgt, st)]

    def op_ty(self, fr, o):
        pl = o.get("c") or o.get("m")
        if pl is not None:
            return self.place_ty(fr, pl)
        k = o.get("k")
        return k["ty"] if k else "?"

    def place_ty(self, fr, pl):
        ty = fr.inst["locals"][pl[0]][0]
        for p in pl[1]:
            if p[0] == "*":
                ty = strip_ptr(ty)
            elif p[0] == "f":
                ty = p[3]
            elif p[0] in ("i", "ci"):
                ty = elem_ty(ty)
        return ty

    def do_call(self, fr, st, fn, fv, args, argtys, site, span, retty):
        from models import MODELS, default_ext
        tgt = None       # instance id
        path = None
        gargs = ()
        if fn is not None:
            path = fn.get("res", fn["path"])
            gargs = fn.get("res_args", fn["args"])
            r = self.obs.on_call(self, fr, st, fn, args, span)
            if r is not None:
                return st, r
            tgt = fn.get("id")
            kind = fn.get("kind")
            if kind == "Virtual":
                vr = self.virtual(st, fn, args[0])
                if vr is None:
                    alts = self.alternatives(st, args[0])
                    if alts:
                        outs = []
                        self.spec += len(alts) > 1
                        for n, x in enumerate(alts):
                            ns = st.copy()
                            r = self.do_call(fr, ns, fn, fv, [x] + args[1:], argtys, site + ("alt", n), span, retty)
                            if r is not None:
                                outs.append(r)
                        self.spec -= len(alts) > 1
                        return self.joinrets(fr, outs, site)
                if vr is not None:
                    tgt = vr["id"]
                    path = vr["path"]
                else:
                    return default_ext(self, fr, st, path, fn, args, argtys, site, span, retty)
            elif fn.get("shim") is not None:
                # FnOnce::call_once on a by-ref closure
                cid = fn["shim"]
                return self.call_closure(fr, st, args[0], args[1:], site, span, retty, spread=True)
            elif fn.get("fnself") is not None:
                a = self.untuple(st, args[1])
                i, p_, ga = fn["fnself"]
                if i is not None:
                    return self.invoke(fr, st, self.p.insts[i], a, site, span, retty)
                return self.ext(fr, st, p_, {"path": p_, "args": ga, "local": False}, a, [None] * len(a), site, span, retty)
            elif fn["path"] in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
                return self.call_closure(fr, st, args[0], args[1:], site, span, retty, spread=True)
        else:
            fv = self.resolve(st, fv)
            if fv.k == "R":
                fv = self.pointee(st, fv)
            if fv.k == "F":
                path, gargs, tgt = fv.a[1], fv.a[2], fv.a[0]
                fn = {"path": path, "args": list(gargs), "local": tgt is not None, "id": tgt}
                r = self.obs.on_call(self, fr, st, fn, args, span)
                if r is not None:
                    return st, r
            elif fv.k == "C":
                return self.call_closure(fr, st, fv, args, site, span, retty)
            elif fv.k == "P" and fv.a[1] is not None and all(x.k == "F" for x in fv.a[1]):
                outs = []
                for x in sorted(fv.a[1], key=lambda q: q.a[1]):
                    r = self.do_call(fr, st.copy(), None, x, args, argtys, site + (x.a[1],), span, retty)
                    if r is not None:
                        outs.append(r)
                return self.joinrets(fr, outs, site)
            else:
                return default_ext(self, fr, st, "<indirect>", None, args, argtys, site, span, retty)
        if tgt is not None:
            inst = self.p.insts[tgt]
            m = MODELS.get(inst["path"])
            if m is not None and not inst["local"]:
                return m(self, fr, st, fn, args, argtys, site, span, retty)
            return self.invoke(fr, st, inst, args, site, span, retty, argtys)
        return self.ext(fr, st, path, fn, args, argtys, site, span, retty)

    def ext(self, fr, st, path, fn, args, argtys, site, span, retty):
        from models import MODELS, default_ext, is_panic
        self.obs.on_ext(self, fr, st, path, fn, args, span)
        if is_panic(path):
            self.obs.on_panic(self, fr, st, path, span)
            return None
        m = MODELS.get(path)
        if m is not None:
            return m(self, fr, st, fn, args, argtys, site, span, retty)
        return default_ext(self, fr, st, path, fn, args, argtys, site, span, retty)

    def joinrets(self, fr, outs, site):
        if not outs:
            return None
        st, v = outs[0]
        for s2, v2 in outs[1:]:
            a = State(st.frames + ({0: v},), st.heap, st.facts)
            b = State(s2.frames + ({0: v2},), s2.heap, s2.facts)
            j, _ = self.join(a, b, (fr.key, site), "ret", fr.depth + 1, False)
            v = j.frames[-1][0]
            st = State(j.frames[:-1], j.heap, j.facts)
        return st, v

    def untuple(self, st, v):
        if v.k == "A" and v.a[0] == "()":
            return list(v.a[2])
        return [v]

    def virtual(self, st, fn, recv):
        v = recv
        for _ in range(4):
            if v.k == "R":
                v = self.pointee(st, v)
            elif v.k == "P" and v.a[1] is not None and len(v.a[1]) == 1:
                v = next(iter(v.a[1]))
            else:
                break
        if v.k != "A":
            return None
        name = fn["path"].split("::")[-1]
        items = self.p.impl_index.get((fn.get("trait"), v.a[0]))
        if items is None:
            return None
        if name in items:
            l = self.p.by_path.get(items[name], [])
        else:  # provided method
            l = [x for x in self.p.by_path.get(fn["path"], []) if x["args"] and x["args"][0] == v.a[0]]
        return l[0] if len(l) == 1 else None

    def alternatives(self, st, recv):
        """The concrete objects a receiver may denote, when they are all known."""
        v = recv
        for _ in range(4):
            if v.k == "P" and v.a[1] is not None:
                if 1 < len(v.a[1]) <= 24 and all(_isptr(x) for x in v.a[1]):
                    return sorted(v.a[1], key=show)
                return None
            if v.k == "R":
                v = self.pointee(st, v)
            elif v.k == "A" and len(v.a[2]) == 1:
                v = v.a[2][0]
            else:
                return None
        return None

    def call_closure(self, fr, st, cv, args, site, span, retty, spread=False):
        from models import default_ext
        byref = None
        cv = self.resolve(st, cv)
        for _ in range(3):
            if cv.k == "R":
                byref = cv
                cv = self.pointee(st, cv)
            else:
                break
        if spread and len(args) == 1:
            args = self.untuple(st, args[0])
        if cv.k == "C" and cv.a[0] is not None:
            inst = self.p.insts.get(cv.a[0])
            if inst is not None:
                envty = inst["locals"][1][0] if inst["argc"] >= 1 else ""
                if envty.startswith("&"):
                    if byref is None:
                        o = ("H", fr.key, site, "env")
                        st.heap[o] = cv
                        byref = mk("R", o, (), 1)
                    env = byref
                else:
                    env = cv
                return self.invoke(fr, st, inst, [env] + list(args), site, span, retty)
        if cv.k == "F":
            return self.do_call(fr, st, None, cv, list(args), [None] * len(args), site, span, retty)
        return default_ext(self, fr, st, "<closure>", None, [cv] + list(args), [None] * (len(args) + 1), site, span, retty)

    def invoke(self, fr, st, inst, args, site, span, retty, argtys=None):
        from models import default_ext
        if fr is not None:
            depth = len(st.frames)
            n = 0
            f = fr
            while f is not None:
                if f.inst.get("id") == inst["id"]:
                    n += 1
                f = f.parent
            if n >= self.max_rec or depth > self.max_depth:
                self.cut[("recursion" if n else "depth", inst["path"])] += 1
                return default_ext(self, fr, st, inst["path"], None, args, argtys or [None] * len(args), site, span, retty)
        r = self.obs.on_invoke(self, fr, st, inst, args, span)
        if r is not None:
            return st, r
        if not self.obs.inline(self, fr, inst, args):
            self.opaque[inst["path"]] += 1
            return default_ext(self, fr, st, inst["path"], None, args, argtys or [None] * len(args), site, span, retty)
        key = ((fr.key if fr else 0), inst["id"], site)
        key = _fkey(key)
        nf = Frame(inst, key, len(st.frames), fr, span)
        loc = {}
        for i, a in enumerate(args):
            loc[i + 1] = a
        # rust-call closures spread their argument tuple
        if len(args) != inst["argc"] and inst.get("closure"):
            flat = [args[0]]
            for a in args[1:]:
                flat += self.untuple(st, a)
            loc = {i + 1: a for i, a in enumerate(flat)}
        ns = State(st.frames + (loc,), st.heap, st.facts)
        r = self.run_body(nf, ns)
        if hasattr(self.obs, "on_return"):
            self.obs.on_return(self, nf, args, r)
        return r

    def run(self, inst, args=None, facts=None, heap=None):
        """Analyse inst as a root with symbolic arguments (or the given ones)."""
        st = State((), dict(heap or {}), dict(facts or {}))
        if args is None:
            args = [mk("u", "arg", i, inst["locals"][i + 1][1] or "") for i in range(inst["argc"])]
        return self.invoke(None, st, inst, args, ("root",), inst.get("span"), None)


_fk = {}


def _fkey(k):
    r = _fk.get(k)
    if r is None:
        r = _fk[k] = len(_fk) + 1
    return r


def _isptr(v):
    """Pointers to immutable shared constants may be kept as alternatives of a join."""
    return v.k == "R" and v.a[0][0] in ("I", "PR")


def _pk(cur):
    return tuple(tuple(x for x in p if x is not None) for p in cur)


def _mentions(k, f, sym):
    if k.__class__ is Val:
        if sym in k.syms():
            return True
        return False
    for x in k[1:]:
        if x.__class__ is Val and sym in x.syms():
            return True
    if k[0] in ("eq",):
        return any(sym in y.syms() for y in f)
    if k[0] == "imp":
        return any(_mentions(a, b, sym) for a, b in f)
    return False


def _mentions_any(k, f, syms):
    if k.__class__ is Val:
        return not syms.isdisjoint(k.syms())
    for x in k[1:]:
        if x.__class__ is Val and not syms.isdisjoint(x.syms()):
            return True
    if k[0] == "eq":
        return any(not syms.isdisjoint(y.syms()) for y in f)
    return False


def order(a, b):
    """Canonical operand order of commutative operations (constants last)."""
    if a.k == "k" and b.k != "k":
        return b, a
    if b.k == "k":
        return a, b
    return (a, b) if id(a) <= id(b) else (b, a)


def fold(op, a, b, ty):
    w = INTW[ty]
    try:
        if op == "Add":
            r = a + b
        elif op == "Sub":
            r = a - b
        elif op == "Mul":
            r = a * b
        elif op == "Div":
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else None
        elif op == "Rem":
            r = (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else None
        elif op == "BitAnd":
            r = a & b
        elif op == "BitOr":
            r = a | b
        elif op == "BitXor":
            r = a ^ b
        elif op == "Shl":
            if b < 0 or b >= w[0]:
                return K and (wrap(a << (b % w[0]), ty), True)
            return wrap(a << b, ty), False
        elif op == "Shr":
            if b < 0 or b >= w[0]:
                return wrap(a >> (b % w[0]), ty), True
            r = a >> b
        elif op == "Eq":
            return int(a == b), False
        elif op == "Ne":
            return int(a != b), False
        elif op == "Lt":
            return int(a < b), False
        elif op == "Le":
            return int(a <= b), False
        elif op == "Gt":
            return int(a > b), False
        elif op == "Ge":
            return int(a >= b), False
        elif op == "Cmp":
            return None, False
        else:
            return None, False
    except Exception:
        return None, False
    if r is None:
        return None, False
    x = wrap(r, ty)
    return x, x != r


def padd(p, n, size):
    if n.k == "k" and n.a[0] == 0:
        return p
    return T("padd", p, n, size)


def size_of(ty):
    return SIZES.get(ty, ty)


def is_ptr(ty):
    return ty.startswith(("*", "&")) or "Box<" in ty or "NonNull" in ty or "Unique" in ty or "Arc<" in ty


def strip_ptr(ty):
    if ty.startswith("*const "):
        return ty[7:]
    if ty.startswith("*mut "):
        return ty[5:]
    if ty.startswith("&"):
        t = ty[1:]
        if t.startswith("'"):
            t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "):
            t = t[4:]
        return t
    if ty.startswith("std::boxed::Box<"):
        return ty[len("std::boxed::Box<"):-1]
    return ty


def elem_ty(ty):
    if ty.startswith("["):
        return ty[1:-1].rsplit(";", 1)[0].strip()
    return "?"


def strip_generics(ty):
    i = ty.find("<")
    return ty if i < 0 else ty[:i].rstrip(":")


def variant_guess(name):
    return {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1}.get(name, 0)


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[3]] + [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    if k == "drop":
        return [t[2]]
    return []
