"""Shape and stride analysis: abstract interpretation with arrays of given rank and dimensions whose strides and offset are
symbols.  Values are constants, linear expressions of those symbols, or unknown; states are partitioned by loop iteration
(loops whose exit test is determined are followed iteration by iteration, all others are summarised by joining)."""
import heapq
import math
import struct
from collections import Counter
from interp import *
from interp import _fkey
from arrays import *
from models import MODELS, fresh, snap, default_ext, lenof, strval, is_panic

LIMIT = 300
MAXLEN = 256
NI = NotImplemented


def lin_of(v):
    """(constant, {symbol: coefficient}) of a linear value, or None."""
    if v.k == "k" and v.a[0].__class__ is int:
        return v.a[0], {}
    if v.k == "u" and v.a[0] == "lin":
        return 0, {v: 1}
    if v.k == "t" and v.a[0] == "lin":
        return v.a[1].a[0], {v.a[i]: v.a[i + 1].a[0] for i in range(2, len(v.a), 2)}
    return None


def lin(c, m):
    m = [(s, k) for s, k in m.items() if k]
    if not m:
        return K(c)
    if c == 0 and len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    m.sort(key=lambda x: repr(x[0].a))
    out = [K(c)]
    for s, k in m:
        out += [s, K(k)]
    return mk("t", "lin", *out)


def S(*name):
    return mk("u", "lin", *name)


def flk(x, ty="f64"):
    """A floating constant."""
    x = float(x)
    if ty == "f32":
        return mk("fl", "f32", struct.unpack("<I", struct.pack("<f", x))[0])
    return mk("fl", "f64", struct.unpack("<Q", struct.pack("<d", x))[0])


def fval(v):
    """The number a constant is, or None."""
    if v.k == "k":
        return v.a[0]
    if v.k == "fl" and v.a[0] == "f64":
        return struct.unpack("<d", struct.pack("<Q", v.a[1]))[0]
    if v.k == "fl" and v.a[0] == "f32":
        return struct.unpack("<f", struct.pack("<I", v.a[1]))[0]
    return None


FOPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": lambda a, b: a / b if b else math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b), "Rem": lambda a, b: math.fmod(a, b) if b and math.isfinite(a) else math.nan}
FCMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}


class GInterp(Interp):
    generic = False

    def loops(self, inst):
        """header -> blocks of its natural loop; block -> headers it lies in, outermost first."""
        key = ("loops", id(inst["blocks"]))
        r = self._rpo.get(key)
        if r is not None:
            return r
        num, headers, blocks = self.rpo(inst)
        preds = {}
        for b in num:
            for s in succ(blocks[b]["t"]):
                preds.setdefault(s, []).append(b)
        body = {}
        for b in num:
            for h in succ(blocks[b]["t"]):
                if h in headers and num[h] <= num[b]:
                    s = body.setdefault(h, {h})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in s:
                            s.add(x)
                            work += preds.get(x, [])
        inn = {b: sorted((h for h in body if b in body[h]), key=lambda h: num[h]) for b in num}
        r = self._rpo[key] = (body, inn)
        return r

    def run_body(self, fr, st):
        inst = fr.inst
        self.analysed[inst.get("key") or inst.get("path")] += 1
        blocks = inst["blocks"]
        num, headers, _ = self.rpo(inst)
        body, inn = self.loops(inst)
        base = fr.key
        fuzzy = set()                    # loops (in their context) whose exit is not determined
        ins = {((), 0): st}
        visits = Counter()
        work = [((0,), (), 0)]
        queued = {((), 0)}
        ret = None

        def prio(ctx, bb):
            k = []
            for h, n in ctx:
                k += [num[h], n]
            return tuple(k + [num.get(bb, 10**6)])

        while work:
            _, ctx, bb = heapq.heappop(work)
            queued.discard((ctx, bb))
            visits[(ctx, bb)] += 1
            if visits[(ctx, bb)] > 40:
                self.cut[("visits", inst["path"])] += 1
                continue
            s = ins[(ctx, bb)].copy()
            fr.bb = bb
            fr.key = _fkey((base, ctx)) if any(n for h, n in ctx) else base
            outs = self.block(fr, s, bb, blocks[bb])
            if len(outs) > 1:
                for i, h in enumerate(inn.get(bb, ())):
                    ts = [t in body[h] for t, _ in outs if t != -1]
                    if any(ts) and not all(ts) and i < len(ctx):
                        fuzzy.add((ctx[:i], h))
            for tgt, ns in outs:
                if tgt == -1:
                    v = ns.frames[-1].get(0, UNIT)
                    ns = State(ns.frames[:-1] + ({0: v},), ns.heap, ns.facts)
                    if ret is None:
                        ret = ns
                    else:
                        ret, _ = self.join(ret, ns, base, "ret", fr.depth, False)
                    continue
                hs = inn.get(tgt, ())
                cur = list(ctx)
                nc = []
                for i, h in enumerate(hs):
                    n = cur[i][1] if i < len(cur) and cur[i][0] == h else 0
                    if h == tgt and i < len(cur) and cur[i][0] == h and (tuple(cur[:i]), h) not in fuzzy and n < LIMIT:
                        n += 1
                    nc.append((h, n))
                    if i < len(cur) and cur[i] != nc[i]:
                        cur = nc[:]
                nc = tuple(nc)
                old = ins.get((nc, tgt))
                if old is None:
                    ins[(nc, tgt)] = ns
                    ch = True
                else:
                    wid = tgt in headers or visits[(nc, tgt)] > 12
                    ins[(nc, tgt)], ch = self.join(old, ns, _fkey((base, nc)), tgt, fr.depth, wid)
                if ch and (nc, tgt) not in queued:
                    queued.add((nc, tgt))
                    heapq.heappush(work, (prio(nc, tgt), nc, tgt))
        fr.key = base
        if ret is None:
            return None
        v = ret.frames[-1][0]
        return State(ret.frames[:-1], ret.heap, ret.facts), v

    def binop(self, st, op, a, b, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a.k == "P" and a.a[1] is not None or b.k == "P" and b.a[1] is not None:
            a, b = self.known(st, a), self.known(st, b)
        if a.k == "fl" and b.k == "fl" and a.a[0] == b.a[0] and base in FOPS or a.k == b.k == "fl" and base in FCMP:
            x, y = fval(a), fval(b)
            if x is not None and y is not None:
                try:
                    return K(int(FCMP[base](x, y))) if base in FCMP else flk(FOPS[base](x, y), a.a[0])
                except OverflowError:
                    pass
        if ty in ("usize", "isize", "i64", "u64") and (a.k != "k" or b.k != "k"):
            x, y = lin_of(a), lin_of(b)
            if x is not None and y is not None:
                r = None
                if base in ("Add", "Sub"):
                    sg = 1 if base == "Add" else -1
                    m = dict(x[1])
                    for s, k in y[1].items():
                        m[s] = m.get(s, 0) + sg * k
                    r = lin(x[0] + sg * y[0], m)
                elif base == "Mul":
                    for p, q in ((x, y), (y, x)):
                        if not p[1]:
                            r = lin(p[0] * q[0], {s: p[0] * k for s, k in q[1].items()})
                            break
                elif base in ("Eq", "Ne"):
                    m = dict(x[1])
                    for s, k in y[1].items():
                        m[s] = m.get(s, 0) - k
                    if not any(m.values()):
                        return K(int((x[0] == y[0]) == (base == "Eq")))
                    if self.generic:
                        # strides and offsets in general position: no coincidence with a constant or with each other
                        return K(int(base == "Ne"))
                elif base == "Div" and not y[1] and y[0] and all(k % y[0] == 0 for k in list(x[1].values()) + [x[0]]):
                    r = lin(x[0] // y[0], {s: k // y[0] for s, k in x[1].items()})
                if r is not None:
                    return tup(r, FALSE) if op.endswith("WithOverflow") else r
        return Interp.binop(self, st, op, a, b, ty)

    def field(self, st, v, i, vi=None):
        if v.k == "t" and v.a[0] == "bits" and i == 0 and "bitflags" in str(v.a[1]) and v.a[2].__class__ is int:
            return K(v.a[2])
        return Interp.field(self, st, v, i, vi)

    def unop(self, st, op, a, ty):
        if op == "Neg" and a.k == "fl" and fval(a) is not None:
            return flk(-fval(a), a.a[0])
        if op == "Neg":
            x = lin_of(a)
            if x is not None and x[1]:
                return lin(-x[0], {s: -k for s, k in x[1].items()})
        return Interp.unop(self, st, op, a, ty)

    def cast(self, fr, st, rv, span):
        if rv[1].startswith(("IntToFloat", "FloatToInt", "FloatToFloat")):
            v = self.known(st, self.operand(fr, st, rv[2], span))
            x = fval(v) if v.k in ("k", "fl") else None
            if x is not None and rv[4] in ("f64", "f32"):
                return flk(x, rv[4])
            if x is not None and rv[4] in INTW and v.k == "fl":
                w = INTW[rv[4]][0]
                lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if rv[4][0] == "i" else (0, (1 << w) - 1)
                return K(0 if x != x else lo if x <= lo else hi if x >= hi else int(x))
        v = Interp.cast(self, fr, st, rv, span)
        if rv[1].startswith("BoxDerefTransmute") and v.k == "t" and v.a[0] == "as":
            w = self.resolve(st, v.a[1])
            return w if w.k == "R" else v
        if v.k == "t" and v.a[0] == "as" and v.a[1].__class__ is Val and lin_of(v.a[1]) is not None and rv[3] in ("usize", "isize", "i64", "u64") and rv[4] in ("usize", "isize", "i64", "u64"):
            return v.a[1]
        return v

    def materialise(self, fr, st, v, site, span):
        """The elements an iterator defined in the crate yields, if its end is determined."""
        nx = self.p.by_path.get("<%s as std::iter::Iterator>::next" % v.a[0]) or self.p.by_path.get("<%s<'_> as std::iter::Iterator>::next" % v.a[0])
        if not nx or len(nx) != 1:
            return None
        ns = st.copy()
        o = ("H", fr.key, site)
        ns.heap[o] = v
        ref = mk("R", o, (), 1)
        out = []
        for j in range(MAXLEN):
            r = self.invoke(fr, ns, nx[0], [ref], site + (j,), span, None)
            if r is None:
                return None
            ns, e = r
            e = self.resolve(ns, e)
            if e.k != "A" or e.a[0] != OPT:
                return None
            if e.a[1] == 0:
                return ns, lit(*out)
            out.append(e.a[2][0])
        return None

    def ext(self, fr, st, path, fn, args, argtys, site, span, retty):
        if path.startswith("rumpy::"):      # a tuple constructor used as a function
            a = self.p.adts.get(path.rpartition("::")[0]) or self.p.adts.get(path)
            k = a.by_name.get(path.rpartition("::")[2]) if a is not None else None
            if k is not None and len(a.variants[k][2]) == len(args):
                return st, mk("A", a.path, k, tuple(args))
        return Interp.ext(self, fr, st, path, fn, args, argtys, site, span, retty)

    def do_call(self, fr, st, fn, fv, args, argtys, site, span, retty):
        path = None
        if fn is not None:
            path = fn.get("res", fn["path"])
        elif fv is not None and self.resolve(st, fv).k == "F":
            f = self.resolve(st, fv)
            path = f.a[1]
            fn2 = {"path": path, "args": list(f.a[2]), "local": f.a[0] is not None, "id": f.a[0]}
            m = GM.get(path)
            if m is not None:
                r = m(self, fr, st, fn2, args, argtys, site, span, retty)
                if r is not NI:
                    return r
            return Interp.do_call(self, fr, st, fn, fv, args, argtys, site, span, retty)
        if path is not None and path.startswith("std::iter::Iterator::") and not path.endswith(("::next", "::by_ref")):
            for k in range(min(2, len(args))):
                if args[k].k == "A" and args[k].a[0].startswith("rumpy::"):
                    r = self.materialise(fr, st, args[k], site + ("mat", k), span)
                    if r is None:
                        break
                    st, v = r
                    args = args[:k] + [v] + args[k + 1:]
        if path is not None and path.startswith(("pyo3::", "<")) and path.endswith("::into_pyobject") and "rumpy::" not in path and len(args) == 2:
            return st, ok(mk("t", "out", args[0]))
        m = GM.get(path)
        if m is None and fn is not None and fn["path"] != path:
            m = GM.get(fn["path"])
        if m is not None:
            r = m(self, fr, st, fn, args, argtys, site, span, retty)
            if r is not NI:
                return r
        return Interp.do_call(self, fr, st, fn, fv, args, argtys, site, span, retty)


GM = {}


def g(*paths):
    def d(f):
        for p in paths:
            GM[p] = f
        return f
    return d


# ------------------------------------------------------------------ sequences
def lit(*es):
    return mk("t", "lit", *es)


def vec(*es):
    return mk("A", "[]", 0, tuple(es))


def isvec(v):
    return v.k == "A" and v.a[0] == "[]"


def arr_of(it, st, v):
    """The literal array a reference (or value) denotes, or None."""
    v = it.resolve(st, v)
    for _ in range(3):
        if v.k == "R" or v.k == "t" and v.a[0] == "&":
            v = it.resolve(st, it.pointee(st, v))
    return v if isvec(v) else None


def seq(it, st, v, ty=None):
    """Elements of an iterable whose length is known, or None."""
    v = it.resolve(st, v)
    ref = None
    if v.k == "t" and v.a[0] == "lit":
        return list(v.a[1:])
    if v.k == "R":
        ref = v
        w = it.resolve(st, it.pointee(st, v))
        if w.k == "t" and w.a[0] == "lit" or w.k == "A" and w.a[0] in RANGES:
            v = w
        elif isvec(w):
            return [mk("R", ref.a[0], ref.a[1] + (("i", K(j)),), ref.a[2]) for j in range(len(w.a[2]))]
        elif w.k == "R":
            return seq(it, st, w, ty)
        else:
            return None
        if v.k == "t":
            return list(v.a[1:])
    if v.k == "A" and v.a[0] in RANGES:
        lo, hi = it.known(st, v.a[2][0]), it.known(st, v.a[2][1])
        if lo.k == "k" and hi.k == "k":
            n = hi.a[0] + (1 if v.a[0].endswith("Inclusive") else 0)
            if n - lo.a[0] <= MAXLEN:
                return [K(j) for j in range(lo.a[0], n)]
        return None
    if isvec(v):
        return list(v.a[2])
    if v.k == "A" and v.a[0] == OPT:
        return list(v.a[2])
    if v.k == "t" and v.a[0] == "&" and isvec(v.a[1]):
        out = []
        for j, e in enumerate(v.a[1].a[2]):
            out.append(mk("R", ("D", v), (("i", K(j)),), 0))
        return out
    if v.k == "t" and v.a[0] == "iter":
        return seq(it, st, v.a[1])
    if v.k == "t" and v.a[0] == "iterv":
        return seq(it, st, v.a[1])
    return None


RANGES = ("std::ops::Range", "std::ops::RangeInclusive")


def advance(it, fr, st, place, rest, site):
    if place.k == "R":
        it.writep(fr, st, place.a[0], place.a[1], rest, (fr.key, site))


def g_iter(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    return st, lit(*s)


for n in list(MODELS):
    if n.endswith(("::iter", "::iter_mut")) and "slice" in n or n.endswith("IntoIterator>::into_iter") or "IntoIterator for" in n:
        GM[n] = g_iter
for n in ("<std::ops::Range<A> as std::iter::IntoIterator>::into_iter", "<I as std::iter::IntoIterator>::into_iter", "std::option::Option::<T>::iter",
          "std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter", "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter",
          "std::iter::IntoIterator::into_iter", "<std::option::Option<T> as std::iter::IntoIterator>::into_iter"):
    GM[n] = g_iter


def g_next(back):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        a = args[0]
        if a.k != "R":
            return NI
        v = it.resolve(st, it.pointee(st, a))
        if v.k == "R":
            a = v
            v = it.resolve(st, it.pointee(st, a))
        s = seq(it, st, v)
        if s is None or isvec(v):
            return NI
        if not s:
            return st, NONE
        e = s[-1] if back else s[0]
        rest = lit(*(s[:-1] if back else s[1:]))
        if v.k == "A" and v.a[0] == "std::ops::Range" and not back:
            rest = mk("A", v.a[0], 0, (K(e.a[0] + 1), v.a[2][1]))
        advance(it, fr, st, a, rest, site)
        return st, some(e)
    return f


for n in list(MODELS):
    if n.endswith("::next") and "Iterator" in n:
        GM[n] = g_next(False)
for a in ("std::slice::Iter<'a, T>", "std::iter::Rev<I>", "std::iter::Chain<A, B>", "std::iter::Peekable<I>", "std::iter::Flatten<I>", "std::iter::FlatMap<I, U, F>", "std::option::IntoIter<A>",
          "std::iter::SkipWhile<I, P>", "std::iter::TakeWhile<I, P>", "std::slice::ChunksExact<'a, T>", "std::slice::Windows<'a, T>", "std::slice::Chunks<'a, T>", "std::iter::Once<T>", "std::iter::Repeat<A>", "std::iter::RepeatN<A>"):
    GM["<%s as std::iter::Iterator>::next" % a] = g_next(False)
for n in ("std::iter::Iterator::next",):
    GM[n] = g_next(False)
for n in ("std::iter::DoubleEndedIterator::next_back", "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back"):
    GM[n] = g_next(True)


def derefs(it, st, es):
    return [it.pointee(st, e) if e.k in ("R",) or e.k == "t" and e.a[0] == "&" else e for e in es]


@g("std::iter::Iterator::copied", "std::iter::Iterator::cloned")
def g_copied(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    return NI if s is None else (st, lit(*derefs(it, st, s)))


@g("std::iter::Iterator::rev")
def g_rev(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    return NI if s is None else (st, lit(*s[::-1]))


@g("std::iter::Iterator::enumerate")
def g_enum(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    return NI if s is None else (st, lit(*[tup(K(i), e) for i, e in enumerate(s)]))


@g("std::iter::Iterator::zip", "std::iter::zip")
def g_zip(it, fr, st, fn, args, argtys, site, span, retty):
    s, t = seq(it, st, args[0]), seq(it, st, args[1])
    return NI if s is None or t is None else (st, lit(*[tup(a, b) for a, b in zip(s, t)]))


@g("std::iter::Iterator::chain")
def g_chain(it, fr, st, fn, args, argtys, site, span, retty):
    s, t = seq(it, st, args[0]), seq(it, st, args[1])
    return NI if s is None or t is None else (st, lit(*(s + t)))


@g("std::iter::Iterator::skip", "std::iter::Iterator::take", "std::iter::Iterator::step_by")
def g_skip(it, fr, st, fn, args, argtys, site, span, retty):
    s, n = seq(it, st, args[0]), it.known(st, args[1])
    if n.k != "k":
        return NI
    name = fn["path"].rsplit("::", 1)[-1]
    if s is None and name == "take":
        v = it.resolve(st, args[0])
        if v.k == "t" and v.a[0] == "repeat_it" and n.a[0] <= MAXLEN:
            return st, lit(*[v.a[1]] * n.a[0])
    if s is None:
        return NI
    return st, lit(*(s[n.a[0]:] if name == "skip" else s[:n.a[0]] if name == "take" else s[::n.a[0]]))


@g("std::iter::repeat")
def g_repeat(it, fr, st, fn, args, argtys, site, span, retty):
    return st, mk("t", "repeat_it", args[0])


@g("std::iter::repeat_n")
def g_repeat_n(it, fr, st, fn, args, argtys, site, span, retty):
    n = it.known(st, args[1])
    return NI if n.k != "k" or n.a[0] > MAXLEN else (st, lit(*[args[0]] * n.a[0]))


@g("std::iter::once")
def g_once(it, fr, st, fn, args, argtys, site, span, retty):
    return st, lit(args[0])


def refobj(it, fr, st, v, site):
    o = ("H", fr.key, site)
    st.heap[o] = v
    return mk("R", o, (), 0)


def apply(it, fr, st, clo, cargs, site, span):
    return it.call_closure(fr, st, clo, cargs, site, span, None)


@g("std::iter::Iterator::map", "std::iter::Iterator::for_each")
def g_map(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    out = []
    clo = args[1]
    if clo.k == "C":          # captured state persists from one call to the next
        o = ("H", fr.key, site, "clo")
        st.heap[o] = clo
        clo = mk("R", o, (), 1)
    for j, e in enumerate(s):
        r = apply(it, fr, st, clo, [e], site + ("m", j), span)
        if r is None:
            return None
        st, v = r
        out.append(v)
    if fn["path"].endswith("for_each"):
        return st, UNIT
    return st, lit(*out)


def truth(it, st, v):
    v = it.known(st, v)
    return v.a[0] if v.k == "k" else None


@g("std::iter::Iterator::filter", "std::iter::Iterator::take_while", "std::iter::Iterator::skip_while")
def g_filter(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    name = fn["path"].rsplit("::", 1)[-1]
    out = []
    st0 = st.copy()
    skipping = True
    for j, e in enumerate(s):
        r = apply(it, fr, st, args[1], [refobj(it, fr, st, e, site + ("fe", j))], site + ("m", j), span)
        if r is None:
            return None
        st, v = r
        t = truth(it, st, v)
        if t is None:
            return st0, fresh(it, st0, fr, site, "flt")
        if name == "filter" and t:
            out.append(e)
        elif name == "take_while":
            if not t:
                break
            out.append(e)
        elif name == "skip_while":
            skipping = skipping and t
            if not skipping:
                out.append(e)
    return st, lit(*out)


@g("std::iter::Iterator::filter_map", "std::iter::Iterator::flat_map")
def g_filter_map(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    out = []
    for j, e in enumerate(s):
        r = apply(it, fr, st, args[1], [e], site + ("m", j), span)
        if r is None:
            return None
        st, v = r
        q = seq(it, st, v)
        if q is None:
            return st, fresh(it, st, fr, site, "flt")
        out += q
    return st, lit(*out)


@g("std::iter::Iterator::flatten", "core::slice::<impl [T]>::concat", "std::slice::<impl [T]>::concat")
def g_flatten(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    out = []
    for e in s:
        if fn["path"].endswith("concat"):
            e = it.resolve(st, e)
            while e.k == "R" or e.k == "t" and e.a[0] == "&":
                e = it.resolve(st, it.pointee(st, e) if e.k == "R" else e.a[1])
        q = seq(it, st, e)
        if q is None:
            return NI
        if fn["path"].endswith("concat"):
            q = [it.pointee(st, x) if x.k == "R" else x for x in q]
        out += q
    return st, (vec if fn["path"].endswith("concat") else lit)(*out)


@g("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter", "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter")
def g_collect(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None or not retty:
        return NI
    if retty.startswith(("std::vec::Vec<", "std::boxed::Box<[", "std::collections::VecDeque<")):
        return st, vec(*s)
    for pre, P, ok, bad in (("std::option::Option<std::vec::Vec<", OPT, 1, 0), ("std::result::Result<std::vec::Vec<", RES, 0, 1)):
        if retty.startswith(pre):
            out = []
            for e in s:
                e = it.resolve(st, e)
                if e.k != "A" or e.a[0] != P:
                    return NI
                if e.a[1] == bad:
                    return st, e
                out.append(e.a[2][0])
            return st, mk("A", P, ok, (vec(*out),))
    return NI


@g("std::iter::Iterator::sum", "std::iter::Iterator::product")
def g_sum(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None or retty not in INTW:
        return NI
    op = "Add" if fn["path"].endswith("sum") else "Mul"
    acc = K(0 if op == "Add" else 1)
    for e in derefs(it, st, s):
        acc = it.binop(st, op, it.known(st, acc), it.known(st, e), retty)
    return st, acc


@g("std::iter::Iterator::count", "<std::slice::Iter<'a, T> as std::iter::Iterator>::count", "<std::iter::Filter<I, P> as std::iter::Iterator>::count", "std::iter::ExactSizeIterator::len")
def g_count(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    return NI if s is None else (st, K(len(s)))


@g("std::iter::Iterator::last", "std::iter::Iterator::max", "std::iter::Iterator::min", "<std::slice::Iter<'a, T> as std::iter::Iterator>::last")
def g_last(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    if not s:
        return st, NONE
    name = fn["path"].rsplit("::", 1)[-1]
    if name == "last":
        return st, some(s[-1])
    ks = [it.known(st, x) for x in derefs(it, st, s)]
    if any(x.k != "k" for x in ks):
        return NI
    best = 0
    for j in range(1, len(s)):
        if name == "max" and ks[j].a[0] >= ks[best].a[0] or name == "min" and ks[j].a[0] < ks[best].a[0]:
            best = j
    return st, some(s[best])


def g_pred(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    name = fn.get("res", fn["path"]).rsplit("::", 1)[-1]
    st0 = st.copy()
    for j, e in enumerate(s):
        a = refobj(it, fr, st, e, site + ("fe", j)) if name == "find" else e
        r = apply(it, fr, st, args[1], [a], site + ("m", j), span)
        if r is None:
            return None
        st, v = r
        if name == "find_map":
            v = it.resolve(st, v)
            if v.k != "A":
                return st0, fresh(it, st0, fr, site, "pred")
            if v.a[1] == 1:
                return st, v
            continue
        t = truth(it, st, v)
        if t is None:
            if name in ("any", "all"):
                return st0, mk("t", "cond", (fr.key, site))
            return st0, fresh(it, st0, fr, site, "pred")
        if name == "any" and t or name == "all" and not t:
            return st, K(int(name == "any"))
        if name == "position" and t:
            return st, some(K(j))
        if name == "find" and t:
            return st, some(e)
    if name in ("any", "all"):
        return st, K(int(name == "all"))
    return st, NONE


def g_fold(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    acc = args[1]
    for j, e in enumerate(s):
        r = apply(it, fr, st, args[2], [acc, e], site + ("m", j), span)
        if r is None:
            return None
        st, acc = r
    return st, acc


for n in list(MODELS):
    if n.rsplit("::", 1)[-1] in ("any", "all", "position", "find", "find_map") and "Iter" in n:
        GM[n] = g_pred
    if n.rsplit("::", 1)[-1] == "fold" and "Iter" in n:
        GM[n] = g_fold
for a in ("std::ops::Range<A>", "std::iter::Rev<I>", "std::slice::Iter<'a, T>"):
    for n in ("any", "all", "position", "find"):
        GM["<%s as std::iter::Iterator>::%s" % (a, n)] = g_pred


@g("std::iter::Iterator::rposition", "<std::slice::Iter<'a, T> as std::iter::Iterator>::rposition")
def g_rposition(it, fr, st, fn, args, argtys, site, span, retty):
    return NI


# ------------------------------------------------------------------ vectors
def place_vec(it, st, a):
    a = it.resolve(st, a)
    if a.k != "R":
        return None, None
    v = it.resolve(st, it.readp(st, a.a[0], a.a[1]))
    if v.k == "R":
        a = v
        v = it.resolve(st, it.readp(st, a.a[0], a.a[1]))
    return (a, list(v.a[2])) if isvec(v) else (a, None)


def setvec(it, fr, st, a, es, site):
    it.writep(fr, st, a.a[0], a.a[1], vec(*es), (fr.key, site))


@g("std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T>::new", "<std::vec::Vec<T> as std::default::Default>::default")
def g_new(it, fr, st, fn, args, argtys, site, span, retty):
    return st, vec()


@g("std::vec::from_elem")
def g_from_elem(it, fr, st, fn, args, argtys, site, span, retty):
    n = it.known(st, args[1])
    if n.k != "k" or n.a[0] > MAXLEN or not retty or not retty.startswith(("std::vec::Vec<usize", "std::vec::Vec<isize", "std::vec::Vec<bool", "std::vec::Vec<std::vec::Vec<", "std::vec::Vec<i64", "std::vec::Vec<(", "std::vec::Vec<std::option::Option<")):
        return NI
    return st, vec(*[args[0]] * n.a[0])


@g("std::vec::Vec::<T, A>::push")
def g_push(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    if es is None or len(es) >= MAXLEN:
        return NI
    setvec(it, fr, st, a, es + [args[1]], site)
    return st, UNIT


@g("std::vec::Vec::<T, A>::insert")
def g_insert(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    i = it.known(st, args[1])
    if es is None or i.k != "k":
        return NI
    if not 0 <= i.a[0] <= len(es):
        it.obs.on_panic(it, fr, st, "Vec::insert", span)
        return None
    setvec(it, fr, st, a, es[:i.a[0]] + [args[2]] + es[i.a[0]:], site)
    return st, UNIT


@g("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def g_remove(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    i = it.known(st, args[1])
    if es is None or i.k != "k":
        return NI
    i = i.a[0]
    if not 0 <= i < len(es):
        it.obs.on_panic(it, fr, st, "Vec::remove", span)
        return None
    if fn["path"].endswith("swap_remove"):
        rest = es[:]
        rest[i] = rest[-1]
        rest.pop()
    else:
        rest = es[:i] + es[i + 1:]
    setvec(it, fr, st, a, rest, site)
    return st, es[i]


@g("std::vec::Vec::<T, A>::pop")
def g_pop(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    if es is None:
        return NI
    if not es:
        return st, NONE
    setvec(it, fr, st, a, es[:-1], site)
    return st, some(es[-1])


@g("std::vec::Vec::<T, A>::truncate", "std::vec::Vec::<T, A>::clear", "std::vec::Vec::<T, A>::resize")
def g_truncate(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    n = it.known(st, args[1]) if len(args) > 1 else K(0)
    if es is None or n.k != "k":
        return NI
    es = es[:n.a[0]]
    if len(args) > 2:
        es += [args[2]] * (n.a[0] - len(es))
    setvec(it, fr, st, a, es, site)
    return st, UNIT


@g("std::vec::Vec::<T, A>::extend_from_slice", "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "std::vec::Vec::<T, A>::append")
def g_extend(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    s = seq(it, st, args[1])
    if es is None or s is None:
        return NI
    if fn.get("res", fn["path"]).endswith("<&'a T>>::extend") or fn["path"].endswith("extend_from_slice"):
        s = derefs(it, st, s)
    if fn["path"].endswith("append"):
        s = derefs(it, st, s)
        b, _ = place_vec(it, st, args[1])
        setvec(it, fr, st, b, [], site)
    setvec(it, fr, st, a, es + s, site)
    return st, UNIT


@g("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def g_split(it, fr, st, fn, args, argtys, site, span, retty):
    """The parts share the slice's elements; a mutable split is not followed."""
    a = it.resolve(st, args[0])
    while a.k == "R":
        a = it.resolve(st, it.pointee(st, a))
    if not isvec(a) or fn["path"].endswith("_mut"):
        return NI
    es = a.a[2]
    ref = lambda x: mk("t", "&", x)
    if fn["path"].endswith("split_at"):
        n = it.known(st, args[1])
        if n.k != "k":
            return NI
        if n.a[0] > len(es):
            it.obs.on_panic(it, fr, st, "split_at", span)
            return None
        return st, tup(ref(vec(*es[:n.a[0]])), ref(vec(*es[n.a[0]:])))
    if not es:
        return st, NONE
    h, t = (es[0], es[1:]) if fn["path"].endswith("first") else (es[-1], es[:-1])
    return st, some(tup(ref(h), ref(vec(*t))))


@g("core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::swap", "std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::fill",
   "core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right", "std::vec::Vec::<T, A>::dedup")
def g_perm(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    if es is None:
        return NI
    name = fn["path"].rsplit("::", 1)[-1]
    if name == "reverse":
        es = es[::-1]
    elif name == "fill":
        es = [args[1]] * len(es)
    elif name == "dedup":
        ks = [it.known(st, e) for e in es]
        if any(k.k != "k" for k in ks):
            return NI
        es = [k for j, k in enumerate(ks) if j == 0 or ks[j - 1] is not k]
    elif name == "swap":
        i, j = it.known(st, args[1]), it.known(st, args[2])
        if i.k != "k" or j.k != "k":
            return NI
        if max(i.a[0], j.a[0]) >= len(es):
            it.obs.on_panic(it, fr, st, "swap", span)
            return None
        es[i.a[0]], es[j.a[0]] = es[j.a[0]], es[i.a[0]]
    elif name.startswith("rotate"):
        k = it.known(st, args[1])
        if k.k != "k":
            return NI
        k = k.a[0] if name == "rotate_left" else len(es) - k.a[0]
        es = es[k:] + es[:k]
    else:
        ks = [sortkey(it, st, e) for e in es]
        if any(k is None for k in ks):
            return NI
        es = [e for _, e in sorted(zip(ks, es), key=lambda x: x[0])]
    setvec(it, fr, st, a, es, site)
    return st, UNIT


def sortkey(it, st, e):
    """The place of a concrete value in its type's order."""
    e = it.known(st, it.resolve(st, e))
    if e.k == "R" or e.k == "t" and e.a[0] == "&":
        e = it.known(st, it.resolve(st, it.pointee(st, e)))
    if e.k == "k":
        return (e.a[0],)
    if e.k == "A" and e.a[0] == "()":
        l = [sortkey(it, st, x) for x in e.a[2]]
        return None if None in l else tuple(l)
    return None


@g("std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by", "core::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_by_cached_key")
def g_sort_by(it, fr, st, fn, args, argtys, site, span, retty):
    """Sorting by a key or comparison that is concrete for the elements at hand."""
    a, es = place_vec(it, st, args[0])
    if es is None or len(es) > 12:
        return NI
    refs = []
    for i, e in enumerate(es):
        refs.append(refobj(it, fr, st, e, site + ("sort", i)))
    if fn["path"].endswith("key"):
        ks = []
        for i, r in enumerate(refs):
            x = apply(it, fr, st, args[1], [r], site + ("key", i), span)
            if x is None or x[0] is None:
                return x
            st = x[0]
            k = sortkey(it, st, x[1])
            if k is None:
                return NI
            ks.append(k)
        es = [e for _, e in sorted(zip(ks, es), key=lambda x: x[0])]
    else:
        out = []
        for i, r in enumerate(refs):
            pos = len(out)
            while pos > 0:
                x = apply(it, fr, st, args[1], [out[pos - 1][0], r], site + ("cmp", i, pos), span)
                if x is None or x[0] is None:
                    return x
                st = x[0]
                c = it.known(st, it.resolve(st, x[1]))
                v = c.a[0] if c.k == "k" else c.a[1] - 1 if c.k == "A" and "Ordering" in str(c.a[0]) and isinstance(c.a[1], int) else None
                if v is None:
                    return NI
                if v <= 0 or v == 255:
                    break
                pos -= 1
            out.insert(pos, (r, es[i]))
        es = [e for _, e in out]
    setvec(it, fr, st, a, es, site)
    return st, UNIT


@g("core::slice::<impl [T]>::contains", "std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains")
def g_contains(it, fr, st, fn, args, argtys, site, span, retty):
    x = it.resolve(st, args[1])
    for _ in range(3):
        if x.k == "R" or x.k == "t" and x.a[0] == "&":
            x = it.known(st, it.resolve(st, it.pointee(st, x)))
    v = it.resolve(st, it.pointee(st, args[0]))
    if x.k == "k" and v.k == "A" and v.a[0] in RANGES:
        lo, hi = it.known(st, v.a[2][0]), it.known(st, v.a[2][1])
        if lo.k == hi.k == "k":
            return st, K(int(lo.a[0] <= x.a[0] and (x.a[0] < hi.a[0] or v.a[0].endswith("Inclusive") and x.a[0] == hi.a[0])))
        return NI
    s = seq(it, st, args[0])
    if s is None:
        return NI
    t = 0
    for e in derefs(it, st, s):
        e = it.known(st, e)
        if e is x and e.k in ("k", "A", "str"):
            return st, TRUE
        if e.k != "k" or x.k != "k":
            t = None
    return NI if t is None else (st, FALSE)


@g("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::get_mut")
def g_get(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    name = fn["path"].rsplit("::", 1)[-1]
    if name.startswith("first"):
        i = 0
    elif name.startswith("last"):
        i = len(s) - 1
    else:
        k = it.known(st, args[1])
        if k.k != "k":
            return NI
        i = k.a[0]
    return st, some(s[i]) if 0 <= i < len(s) else NONE


@g("std::ops::RangeInclusive::<Idx>::new")
def g_rinc(it, fr, st, fn, args, argtys, site, span, retty):
    return st, mk("A", "std::ops::RangeInclusive", 0, (args[0], args[1], FALSE))


def bounds(it, st, i, n):
    i = it.resolve(st, i)
    if i.k != "A":
        return None
    f = [it.known(st, x) for x in i.a[2]]
    if any(x.k != "k" for x in f[:2]):
        return None
    f = [x.a[0] for x in f[:2]]
    nm = i.a[0]
    return {"std::ops::Range": lambda: (f[0], f[1]), "std::ops::RangeFrom": lambda: (f[0], n), "std::ops::RangeTo": lambda: (0, f[0]), "std::ops::RangeFull": lambda: (0, n),
            "std::ops::RangeToInclusive": lambda: (0, f[0] + 1), "std::ops::RangeInclusive": lambda: (f[0], f[1] + 1)}.get(nm, lambda: None)()


def g_index(it, fr, st, fn, args, argtys, site, span, retty):
    ity = argtys[1] if argtys else None
    i = it.resolve(st, args[1])
    v = arr_of(it, st, args[0])
    if v is None:
        return NI
    n = len(v.a[2])
    if ity == "usize" or i.k == "k":
        i = it.known(st, i)
        if i.k == "k" and not 0 <= i.a[0] < n:
            it.obs.on_panic(it, fr, st, "index", span)
            return None
        b = it.resolve(st, args[0])
        if b.k == "R" and isvec(it.resolve(st, it.pointee(st, b))):
            return NI
        if b.k == "R":
            b = it.resolve(st, it.pointee(st, b))
        return (st, mk("R", b.a[0], b.a[1] + (("i", i),), b.a[2])) if b.k == "R" else NI
    if retty and retty.startswith("&mut"):
        return NI
    b = bounds(it, st, i, n)
    if b is None:
        return NI
    if not 0 <= b[0] <= b[1] <= n:
        it.obs.on_panic(it, fr, st, "slice index", span)
        return None
    o = ("H", fr.key, site, "sub")
    st.heap[o] = vec(*v.a[2][b[0]:b[1]])
    return st, mk("R", o, (), 0)


for n in list(MODELS):
    if n.endswith(("::index", "::index_mut")) and "str" not in n.split("::")[1]:
        GM[n] = g_index


def g_eq(it, fr, st, fn, args, argtys, site, span, retty):
    a, b = arr_of(it, st, args[0]), arr_of(it, st, args[1])
    if a is None or b is None:
        return NI
    p = fn.get("res", fn["path"])
    r = 1
    if len(a.a[2]) != len(b.a[2]):
        r = 0
    else:
        for x, y in zip(a.a[2], b.a[2]):
            c = it.known(st, it.binop(st, "Eq", it.known(st, x), it.known(st, y), "usize"))
            if c.k == "k" and not c.a[0]:
                r = 0
                break
            if c.k != "k":
                r = None
    if r is None:
        return NI
    return st, K(r if p.endswith("::eq") else 1 - r)


for n in ("std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>", "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>", "std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>",
          "std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>", "std::vec::partial_eq::<impl std::cmp::PartialEq<[U]> for std::vec::Vec<T, A>>",
          "std::vec::partial_eq::<impl std::cmp::PartialEq<&[U]> for std::vec::Vec<T, A>>", "std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A>> for [T]>",
          "std::vec::partial_eq::<impl std::cmp::PartialEq<[U; N]> for std::vec::Vec<T, A>>", "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>"):
    for m in ("eq", "ne"):
        GM["%s::%s" % (n, m)] = g_eq


def g_clone(it, fr, st, fn, args, argtys, site, span, retty):
    return st, it.pointee(st, args[0])


for t in list(INTW) + ["bool", "char", "f32", "f64"]:
    GM["std::clone::impls::<impl std::clone::Clone for %s>::clone" % t] = g_clone
for n in ("<std::option::Option<T> as std::clone::Clone>::clone", "<pyo3::Bound<'py, T> as std::clone::Clone>::clone", "<pyo3::Bound<'_, T> as std::clone::Clone>::clone"):
    GM[n] = g_clone


# ------------------------------------------------------------------ arrays


class Geo(Observer):
    seqs = True

    def __init__(self, contig=None):
        self.contig = contig or {}
        self.panics = []

    def on_panic(self, it, fr, st, path, span):
        self.panics.append((path, span))

    def on_invoke(self, it, fr, st, inst, args, span):
        n = inst["path"].rsplit("::", 1)[-1]
        if n in ("is_c_contiguous", "is_f_contiguous") and "RumpyArray" in inst["path"]:
            a = it.resolve(st, args[0])
            v = it.resolve(st, it.pointee(st, a)) if a.k == "R" else a
            if v.k == "A" and v.a[0] == ARR and v.a[2][5].k == "u" and v.a[2][5].a[0] in self.contig:
                return K(int(n[3] in self.contig[v.a[2][5].a[0]]))
        return None


def garray(nm, shape, dt, contig=None):
    """An array of the given dimensions; strides and offset are symbols."""
    return mk("A", ARR, 0, (mk("u", nm, "buffer"), S(nm, "offset"), vec(*[K(d) for d in shape]), vec(*[S(nm, "stride", i) for i in range(len(shape))]), dt, mk("u", nm, "flags")))


# ------------------------------------------------------------------ Python objects
PYARR = "rumpy::python::pyarray::PyRumpyArray"


class PA:
    """An array argument: name and dimensions."""

    def __init__(self, nm, *shape):
        self.nm, self.shape = nm, shape


def py(kind, *xs):
    return mk("t", "py", kind, *xs)


class Builder:
    """Argument values from Python-like descriptions, by parameter type."""

    def __init__(self, D, dt="float64"):
        self.D, self.dt = D, dt
        self.heap = dict(D.heap)
        self.n = 0
        self.names = []

    def ref(self, v, mut=0):
        self.n += 1
        o = ("X", self.n)
        self.heap[o] = v
        return mk("R", o, (), mut)

    def arr(self, x):
        self.names.append(x.nm)
        return garray(x.nm, x.shape, self.D.val[getattr(x, "dt", self.dt)])

    def pyobj(self, x):
        if x is None:
            return py("none")
        if x is Ellipsis:
            return py("ellipsis")
        if x.__class__ is bool:
            return py("bool", K(int(x)))
        if x.__class__ is int:
            return py("int", K(x))
        if x.__class__ is float:
            return py("float", flk(x))
        if x.__class__ is str:
            return py("str", mk("str", x))
        if x.__class__ is slice:
            return py("slice", *[self.pyobj(y) for y in (x.start, x.stop, x.step)])
        if x.__class__ is tuple:
            return py("tuple", *[self.pyobj(y) for y in x])
        if x.__class__ is list:
            return py("list", *[self.pyobj(y) for y in x])
        if isinstance(x, PA):
            return py("arr", self.ref(mk("A", PYARR, 0, (self.arr(x),)), 1))
        raise ValueError(x)

    def arg(self, ty, x):
        t = ty
        if t.startswith("std::option::Option<"):
            return NONE if x is None else some(self.arg(t[20:-1], x))
        if "pyo3::Bound" in t or t.startswith("&pyo3::"):
            v = self.pyobj(x)
            return self.ref(v) if t.startswith("&") else v
        if t.startswith("pyo3::PyRef"):
            return self.ref(mk("A", PYARR, 0, (self.arr(x),)), 1)
        if t.startswith("pyo3::Python"):
            return mk("u", "python")
        if t == "&str":
            return mk("str", x)
        if t.startswith("&"):
            return self.ref(self.arg(t[1:].replace("mut ", "", 1) if t.startswith("&mut") else t[1:], x), 1)
        if t == PYARR:
            return mk("A", PYARR, 0, (self.arr(x),))
        if t == ARR:
            return self.arr(x)
        if t.startswith("std::vec::Vec<"):
            return vec(*[self.arg(t[14:-1], y) for y in x])
        if t.startswith("["):
            return vec(*[self.arg(t[1:-1].split(";")[0], y) for y in x])
        if t.startswith("("):
            ts = split_types(t[1:-1])
            return tup(*[self.arg(a, y) for a, y in zip(ts, x)])
        if t in INTW or t == "bool":
            return K(int(x))
        if t in ("f64", "f32"):
            return flk(float(x))
        if t == "char":
            return K(ord(x))
        return mk("u", "arg", t)


def split_types(t):
    out, d, cur = [], 0, ""
    for c in t:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def pyval(it, st, v):
    v = it.resolve(st, v)
    for _ in range(4):
        if v.k == "R":
            v = it.resolve(st, it.pointee(st, v))
    return v if v.k == "t" and v.a[0] == "py" else None


def ok(v):
    return mk("A", RES, 0, (v,))


def err(*why):
    return mk("A", RES, 1, (mk("u", "pyerr", *why),))


def extract(it, fr, st, o, ty, site):
    """What extracting type ty from the object gives: a value, None for a refusal, NI if not known."""
    k = o.a[1]
    if ty.startswith("std::option::Option<"):
        if k == "none":
            return NONE
        r = extract(it, fr, st, o, ty[20:-1], site)
        return some(r) if r is not None and r is not NI else r
    if ty in INTW:
        if k in ("int", "bool"):
            c = o.a[2].a[0]
            return o.a[2] if wrap(c, ty) == c else None
        return None
    if ty == "bool":
        return o.a[2] if k == "bool" else None
    if ty in ("f64", "f32"):
        if k in ("int", "bool"):
            return flk(float(o.a[2].a[0]))
        return o.a[2] if k == "float" else None
    if ty.startswith(("pyo3::PyRef<", "pyo3::PyRefMut<")):
        return (o.a[2] if PYARR in ty else None) if k == "arr" else None
    if ty == PYARR:
        return None
    if ty.startswith("std::vec::Vec<"):
        if k not in ("tuple", "list"):
            return None
        out = []
        for e in o.a[2:]:
            r = extract(it, fr, st, e, ty[14:-1], site)
            if r is None or r is NI:
                return r
            out.append(r)
        return vec(*out)
    if ty.startswith("("):
        ts = split_types(ty[1:-1])
        if k != "tuple" or len(o.a) - 2 != len(ts):
            return None
        out = []
        for e, t in zip(o.a[2:], ts):
            r = extract(it, fr, st, e, t, site)
            if r is None or r is NI:
                return r
            out.append(r)
        return tup(*out)
    if ty in ("std::string::String", "&str"):
        return o.a[2] if k == "str" else None
    if "num_complex" in ty:
        return None if k in ("none", "tuple", "list", "slice", "arr", "ellipsis", "str") else NI
    return NI


@g("pyo3::types::PyAnyMethods::extract", "<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::extract", "pyo3::types::any::PyAnyMethods::extract")
def g_extract(it, fr, st, fn, args, argtys, site, span, retty):
    o = pyval(it, st, args[0])
    if o is None or not retty or not retty.startswith("std::result::Result<"):
        return NI
    ty = split_types(retty[20:-1])[0]
    r = extract(it, fr, st, o, ty, site)
    if r is NI:
        return NI
    return st, (err("extract", ty) if r is None else ok(r))


KINDS = {"PyTuple": "tuple", "PyList": "list", "PySlice": "slice", "PyEllipsis": "ellipsis", "PyString": "str", "PyFloat": "float", "PyInt": "int", "PyBool": "bool", "PyRumpyArray": "arr",
         "PyComplex": "complex", "PyBytes": "bytes", "PyDict": "dict", "PyType": "type", "PyNone": "none"}


def kind_in(ty):
    for n, k in KINDS.items():
        if n in ty.rsplit("::", 1)[-1] or (n + ">") in ty:
            return k
    return None


@g("pyo3::types::PyAnyMethods::downcast", "<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::downcast", "<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::downcast_into")
def g_downcast(it, fr, st, fn, args, argtys, site, span, retty):
    o = pyval(it, st, args[0])
    ga = fn.get("res_args", fn["args"])
    k = kind_in(ga[-1]) if ga else None
    if o is None or k is None:
        return NI
    if o.a[1] == k or k == "int" and o.a[1] == "bool":
        return st, ok(args[0])
    return st, err("downcast", k)


@g("pyo3::types::PyAnyMethods::is_instance_of", "<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::is_instance_of")
def g_isinst(it, fr, st, fn, args, argtys, site, span, retty):
    o = pyval(it, st, args[0])
    ga = fn.get("res_args", fn["args"])
    k = kind_in(ga[-1]) if ga else None
    if o is None or k is None:
        return NI
    return st, K(int(o.a[1] == k or k == "int" and o.a[1] == "bool"))


@g("<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::is_none", "pyo3::types::PyAnyMethods::is_none")
def g_is_none(it, fr, st, fn, args, argtys, site, span, retty):
    o = pyval(it, st, args[0])
    return NI if o is None else (st, K(int(o.a[1] == "none")))


def pyseq(it, st, v):
    o = pyval(it, st, v)
    return list(o.a[2:]) if o is not None and o.a[1] in ("tuple", "list") else None


def g_pyiter(it, fr, st, fn, args, argtys, site, span, retty):
    s = pyseq(it, st, args[0])
    if s is None:
        return NI
    return st, lit(*s)


def g_pylen(it, fr, st, fn, args, argtys, site, span, retty):
    s = pyseq(it, st, args[0])
    if s is None:
        return NI
    n = fn.get("res", fn["path"]).rsplit("::", 1)[-1]
    if retty and retty.startswith("std::result"):
        return st, ok(K(len(s)))
    return st, K(len(s) if n == "len" else int(not s))


def g_pyget(it, fr, st, fn, args, argtys, site, span, retty):
    s = pyseq(it, st, args[0])
    i = it.known(st, args[1])
    if s is None or i.k != "k":
        return NI
    return st, ok(s[i.a[0]]) if 0 <= i.a[0] < len(s) else err("index")


for t in ("PyTuple", "PyList"):
    for b in ("<pyo3::Bound<'py, pyo3::types::%s> as pyo3::types::%sMethods<'py>>::" % (t, t), "pyo3::types::%sMethods::" % t, "pyo3::types::%s::%sMethods::" % (t[2:].lower(), t)):
        GM[b + "iter"] = g_pyiter
        GM[b + "len"] = g_pylen
        GM[b + "is_empty"] = g_pylen
        GM[b + "get_item"] = g_pyget
    GM["<&pyo3::Bound<'py, pyo3::types::%s> as std::iter::IntoIterator>::into_iter" % t] = g_pyiter
    GM["<pyo3::Bound<'py, pyo3::types::%s> as std::iter::IntoIterator>::into_iter" % t] = g_pyiter
for n in ("len", "is_empty"):
    GM["<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::" + n] = g_pylen
for n in ("Tuple", "List"):
    GM["<pyo3::types::%s::Bound%sIterator<'py> as std::iter::Iterator>::next" % (n.lower(), n)] = g_next(False)


@g("<pyo3::Bound<'py, pyo3::types::PySlice> as pyo3::types::PySliceMethods<'py>>::indices", "pyo3::types::PySliceMethods::indices")
def g_indices(it, fr, st, fn, args, argtys, site, span, retty):
    o = pyval(it, st, args[0])
    n = it.known(st, args[1])
    if o is None or n.k != "k" or o.a[1] != "slice":
        return NI
    f = [None if x.a[1] == "none" else x.a[2].a[0] for x in o.a[2:]]
    if f[2] == 0:
        return st, err("step")
    a, b, c = slice(*f).indices(n.a[0])
    return st, ok(mk("A", "pyo3::types::PySliceIndices", 0, tuple(K(x) for x in (a, b, c, len(range(a, b, c))))))


@g("<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::getattr", "pyo3::types::PyAnyMethods::getattr")
def g_getattr(it, fr, st, fn, args, argtys, site, span, retty):
    o = pyval(it, st, args[0])
    n = strval(it, st, args[1])
    if o is None or n.k != "str":
        return NI
    if o.a[1] == "slice" and n.a[0] in ("start", "stop", "step"):
        return st, ok(o.a[2 + ("start", "stop", "step").index(n.a[0])])
    return NI


def _iexact(ty, name):
    w, sg = INTW[ty]
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
    kind, _, op = name.partition("_")
    F = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1), "rem": lambda a, b: (abs(a) % abs(b)) * (-1 if a < 0 else 1),
         "abs": abs, "signum": lambda a: (a > 0) - (a < 0), "is_negative": lambda a: int(a < 0), "is_positive": lambda a: int(a > 0), "pow": lambda a, b: a ** b,
         "div_euclid": lambda a, b: (a - a % abs(b)) // b, "rem_euclid": lambda a, b: a % abs(b), "unsigned_abs": abs, "abs_diff": lambda a, b: abs(a - b)}
    if name in F:
        kind, op = "", name

    @g("core::num::<impl %s>::%s" % (ty, name))
    def h(it, fr, st, fn, args, argtys, site, span, retty):
        ks = [it.known(st, a) for a in args]
        if any(k.k != "k" or k.a[0].__class__ is not int for k in ks) or op not in F:
            return NI
        try:
            if op == "pow" and abs(ks[1].a[0]) > 200:
                return NI
            r = F[op](*[k.a[0] for k in ks])
        except ZeroDivisionError:
            return (st, NONE) if kind == "checked" else NI
        fits = lo <= r <= hi or name == "unsigned_abs"
        if kind == "checked":
            return st, some(K(r)) if fits else NONE
        if kind == "saturating":
            return st, K(min(max(r, lo), hi))
        if kind == "wrapping":
            r &= (1 << w) - 1
            return st, K(r - (1 << w) if sg and r > hi else r)
        return (st, K(r)) if kind == "" and fits else NI


for _ty in INTW:
    if _ty in ("bool", "char"):
        continue
    for _n in ("abs", "unsigned_abs", "signum", "is_negative", "is_positive", "div_euclid", "rem_euclid", "abs_diff", "pow", "wrapping_add", "wrapping_sub", "wrapping_mul", "checked_add", "checked_sub", "checked_mul",
               "checked_div", "checked_rem", "checked_pow", "saturating_add", "saturating_sub", "saturating_mul", "saturating_pow"):
        if "core::num::<impl %s>::%s" % (_ty, _n) not in GM:
            _iexact(_ty, _n)


@g("std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_lowercase", "core::str::<impl str>::to_ascii_uppercase", "std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase")
def g_case(it, fr, st, fn, args, argtys, site, span, retty):
    v = strval(it, st, args[0])
    if v.k != "str":
        return NI
    return st, mk("str", v.a[0].upper() if "upper" in fn.get("res", fn["path"]) else v.a[0].lower())


@g("<std::string::String as std::cmp::PartialEq<&str>>::eq", "<std::string::String as std::cmp::PartialEq<str>>::eq", "<std::string::String as std::cmp::PartialEq>::eq", "<&str as std::cmp::PartialEq<std::string::String>>::eq",
   "<str as std::cmp::PartialEq<std::string::String>>::eq")
def g_streq(it, fr, st, fn, args, argtys, site, span, retty):
    a, b = strval(it, st, args[0]), strval(it, st, args[1])
    return (st, K(int(a.a[0] == b.a[0]))) if a.k == "str" and b.k == "str" else NI


@g("pyo3::Python::<'py>::import", "pyo3::Python::<'py>::get_type", "pyo3::PyErr::warn")
def g_import(it, fr, st, fn, args, argtys, site, span, retty):
    """Imports and warnings are taken to succeed (warnings are not configured as errors)."""
    n = fn.get("res", fn["path"]).rsplit("::", 1)[-1]
    return st, ok(UNIT) if n == "warn" else ok(mk("t", "pymod", strval(it, st, args[1]))) if n == "import" else mk("u", "type", fr.key, site)


@g("<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::call_method1")
def g_call_method1(it, fr, st, fn, args, argtys, site, span, retty):
    v = it.resolve(st, args[0])
    for _ in range(4):
        if v.k == "R":
            v = it.resolve(st, it.pointee(st, v))
        elif v.k == "A" and len(v.a[2]) == 1:
            v = v.a[2][0]
    if "pymod" not in show(v, 4) or "warnings" not in show(v, 4):
        return NI
    return st, ok(mk("u", "none"))


@g("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def g_copy_from_slice(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    b, xs = place_vec(it, st, args[1])
    if es is None or xs is None or len(es) != len(xs):
        return NI
    xs = [it.known(st, it.resolve(st, x)) for x in xs]
    setvec(it, fr, st, a, xs, site)
    return st, UNIT


@g("pyo3::types::PyTuple::new", "pyo3::types::PyList::new")
def g_pynew(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[1])
    return NI if s is None else (st, ok(vec(*s)))


def _ffn(name, f):
    @g(*["%s%s" % (p, name) for p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::", "std::f32::<impl f32>::", "core::f32::<impl f32>::", "core::num::<impl f64>::", "core::num::<impl f32>::", "core::f64::math::", "std::num::<impl f64>::")])
    def h(it, fr, st, fn, args, argtys, site, span, retty):
        xs = [it.known(st, a) for a in args]
        vs = [fval(x) for x in xs]
        if any(v is None for v in vs) or not any(x.k == "fl" for x in xs):
            return NI
        try:
            r = f(*vs)
        except (ValueError, OverflowError):
            return NI
        return st, K(int(r)) if isinstance(r, bool) else flk(r, xs[0].a[0])


for _n, _f in (("floor", math.floor), ("ceil", math.ceil), ("trunc", math.trunc), ("abs", abs), ("sqrt", math.sqrt), ("max", max), ("min", min), ("is_nan", lambda x: x != x), ("is_finite", math.isfinite), ("is_infinite", math.isinf), ("fract", lambda x: x - math.trunc(x)),
               ("round", lambda x: math.copysign(math.floor(abs(x) + 0.5), x)), ("powi", lambda a, b: a ** b), ("powf", lambda a, b: a ** b), ("exp", math.exp), ("ln", math.log), ("log10", math.log10), ("log2", math.log2)):
    _ffn(_n, _f)
INTS_ = ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize")


@g(*["std::convert::num::<impl std::convert::From<%s> for %s>::from" % (a, b) for a in INTS_ + ("bool",) for b in INTS_],
   *["core::convert::num::<impl std::convert::From<%s> for %s>::from" % (a, b) for a in INTS_ + ("bool",) for b in INTS_])
def g_widen(it, fr, st, fn, args, argtys, site, span, retty):
    return st, args[0]


@g("core::num::<impl usize>::is_multiple_of")
def g_multiple(it, fr, st, fn, args, argtys, site, span, retty):
    a, b = it.known(st, args[0]), it.known(st, args[1])
    if a.k != "k" or b.k != "k":
        return NI
    return st, K(int(a.a[0] % b.a[0] == 0 if b.a[0] else a.a[0] == 0))


def g_wrapok(it, fr, st, fn, args, argtys, site, span, retty):
    return st, ok(mk("t", "out", args[0]))


def g_same(it, fr, st, fn, args, argtys, site, span, retty):
    return st, args[0]


for n in ("<rumpy::python::pyarray::PyRumpyArray as pyo3::IntoPyObject<'py>>::into_pyobject", "<rumpy::python::pyarray::ReductionResult as pyo3::IntoPyObject<'py>>::into_pyobject"):
    GM[n] = g_wrapok
for n in ("pyo3::Bound::<'py, T>::into_any", "pyo3::Bound::<'py, T>::unbind", "pyo3::Py::<T>::into_any", "pyo3::Bound::<'py, T>::into_ptr", "<pyo3::Bound<'py, T> as std::ops::Deref>::deref",
          "pyo3::Bound::<'py, T>::as_any", "pyo3::Bound::<'py, T>::as_borrowed", "pyo3::Py::<T>::bind", "pyo3::Py::<T>::into_bound"):
    GM[n] = g_same


@g("pyo3::Py::<T>::new", "pyo3::Bound::<'py, T>::new")
def g_pynew(it, fr, st, fn, args, argtys, site, span, retty):
    return st, ok(mk("t", "out", args[1]))


def results(it, st, v):
    """Array values in a result: list of array values, 'error', or something undetermined."""
    out, work, seen = [], [v], set()
    while work:
        x = work.pop(0)
        if x in seen:
            continue
        seen.add(x)
        x = it.resolve(st, x)
        if x.k == "A" and x.a[0] == ARR:
            out.append(x)
        elif x.k == "A" and x.a[0] == RES and x.a[1] == 1 or x.k == "A" and x.a[0] == OPT and x.a[1] == 0:
            out.append("error")
        elif x.k == "A" and x.a[0] in (RES, OPT, PYARR, "()") or x.k == "A" and x.a[0].startswith("rumpy::"):
            work += list(x.a[2])
        elif isvec(x):
            out.append([y for e in x.a[2] for y in results(it, st, e)])
        elif x.k == "P" and x.a[1]:
            work += sorted(x.a[1], key=show)
        elif x.k == "t" and x.a[0] == "out":
            work.append(x.a[1])
        elif x.k == "R":
            work.append(it.pointee(st, x))
        else:
            out.append(("undetermined", x))
    return out


def call(prog, D, fn, args, dt="float64", contig="", max_steps=400_000, obs=None):
    B = Builder(D, dt)
    vs = [B.arg(fn["locals"][k + 1][0], args[k]) for k in range(fn["argc"])]
    o = obs or Geo({n: contig for n in B.names})
    it = GInterp(prog, o, max_steps=max_steps)
    it.max_rec = 3
    try:
        r = it.run(fn, vs, heap=B.heap)
    except Budget:
        return it, o, "budget"
    return it, o, r


@g("std::iter::Iterator::reduce")
def g_reduce(it, fr, st, fn, args, argtys, site, span, retty):
    s = seq(it, st, args[0])
    if s is None:
        return NI
    if not s:
        return st, NONE
    acc = s[0]
    for j, e in enumerate(s[1:]):
        r = apply(it, fr, st, args[1], [acc, e], site + ("rd", j), span)
        if r is None:
            return None
        st, acc = r
    return st, some(acc)
