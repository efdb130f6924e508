"""Element provenance: which input elements reach each element of a result, and whether they arrive unchanged.

On top of the shape/stride analysis (geom): array buffers are abstract blocks whose cells hold either a copy of one input
element (identified by its symbolic address), a constant, or the set of input elements the value was computed from.  The set
is marked `may` when it stems from a join of different values (a data-dependent choice)."""
from geom import *
import geom
import strmap
from models import MODELS, _padd

MEMS = ("std::boxed::Box", )
NUM = frozenset(INTW) | {"f32", "f64", "half::f16", "bool", "half::binary16::f16"}
SZ = dict(SIZES)


def el(nm, off):
    return mk("t", "el", nm, off)


def dep(s, may=False):
    return mk("t", "dep", frozenset(s), bool(may))


NOFLOW = (None, True)


def flow(v, d=0):
    """(input elements the value may depend on, whether a choice was involved), or None if not known."""
    k = v.k
    if k in ("k", "fl", "str", "F", "cl"):
        return frozenset(), False
    if k == "t":
        if v.a[0] == "el":
            return frozenset((v,)), False
        if v.a[0] == "dep":
            return v.a[1], v.a[2]
        if d > 12 or v.a[0] in ("mem", "rawslice", "padd", "*", "ld", "cond", "out", "py", "lit"):
            return None
        s, may = frozenset(), False
        for x in v.a[1:]:
            if isinstance(x, Val):
                r = flow(x, d + 1)
                if r is None:
                    return None
                s, may = s | r[0], may or r[1]
        return s, may
    if k == "A":
        s, may = frozenset(), False
        for x in v.a[2]:
            r = flow(x, d + 1)
            if r is None:
                return None
            s, may = s | r[0], may or r[1]
        return s, may
    if k == "P" and v.a[1]:
        s = frozenset()
        for x in v.a[1]:
            r = flow(x, d + 1)
            if r is None:
                return None
            s |= r[0]
        return s, True
    return None


def hasel(v):
    r = flow(v)
    return r is not None and bool(r[0])


def memroot(p):
    """(block, byte offset value, element type or None) of a pointer into a tracked block, or None."""
    off, ty = (0, {}), None
    for _ in range(60):
        if p.k == "u" and p.a[0] == "mem":
            return p, lin(*off), ty
        if p.k != "t":
            return None
        o = p.a[0]
        if o == "padd":
            n = lin_of(p.a[2])
            if n is None or not isinstance(p.a[3], int):
                q = memroot(p.a[1])
                return None if q is None else (q[0], None, ty or q[2])
            c, m = off
            m = dict(m)
            for s, k in n[1].items():
                m[s] = m.get(s, 0) + k * p.a[3]
            off = (c + n[0] * p.a[3], m)
            p = p.a[1]
        elif o == "tp":
            ty = ty or p.a[2]
            p = p.a[1]
        elif o in ("as", "f", "*", "&", "wrap1", "pfld"):
            p = p.a[1]
        else:
            return None
    return None


def cells(m):
    """offset -> (size, value) of a block value; wild value."""
    return {m.a[i]: (m.a[i + 1], m.a[i + 2]) for i in range(2, len(m.a), 3)}, m.a[1]


def block(cs, wild):
    xs = []
    for o in sorted(cs):
        xs += [o, cs[o][0], cs[o][1]]
    return mk("t", "mem", wild, *xs)


def blend(a, b, may=True):
    x, y = flow(a), flow(b)
    if x is None or y is None:
        return mk("u", "blend")
    return dep(x[0] | y[0], may or x[1] or y[1])


class Flow(Geo):
    def __init__(self, contig=None, item=8):
        Geo.__init__(self, contig)
        self.item = item
        self.stores = []         # stores into input blocks

    def get(self, it, st, p, ty, size=None):
        r = memroot(p)
        if r is None:
            return None
        b, off, t = r
        ty = ty or t
        n = SZ.get(ty) if ty else None
        m = st.heap.get(("M",) + b.a[1:])
        if m is None:
            return None
        if m.k == "t" and m.a[0] == "input":
            if off is None:
                return dep(m.a[2], True) if m.a[2] else None
            if m.a[3] is not None:      # contents given
                o = it.known(st, off)
                z = m.a[4]
                if o.k == "k" and o.a[0] % z == 0 and 0 <= o.a[0] // z < len(m.a[3]):
                    return m.a[3][o.a[0] // z]
                return None
            return el(m.a[1], off)
        cs, wild = cells(m)
        if off is None or off.k != "k":
            s, may = frozenset(), True
            for z, v in cs.values():
                r = flow(v)
                if r is None:
                    return mk("u", "wildread")
                s |= r[0]
            if wild is not None:
                r = flow(wild)
                if r is None:
                    return mk("u", "wildread")
                s |= r[0]
            return dep(s, True)
        o = off.a[0]
        c = cs.get(o)
        if c is None:
            near = [q for q in cs if q < o + (n or size or self.item) and q + cs[q][0] > o]
            if near:
                return mk("u", "overlap")
            v = K(0) if ty in INTW or ty == "bool" else flk(0.0)
            return v if wild is None else blend(v, wild)
        z, v = c
        if n is not None and n > z == 1:
            # assembled byte by byte
            xs = [cs.get(o + i) for i in range(n)]
            if all(x is not None and x[0] == 1 and x[1].k == "t" and x[1].a[0] == "el" for x in xs):
                l0 = lin_of(xs[0][1].a[2])
                good = all(x[1].a[1] == v.a[1] and lin_of(x[1].a[2]) is not None and lin_of(x[1].a[2])[1] == l0[1] and lin_of(x[1].a[2])[0] == l0[0] + i for i, x in enumerate(xs))
                if good:
                    return v
            return mk("u", "bytes")
        if n is not None and n < z and v.k == "t" and v.a[0] == "el":
            return v
        if v.k == "k" and ty in ("f64", "f32") and v.a[0] == 0:
            v = flk(0.0)
        return v if wild is None else blend(v, wild)

    def put(self, it, fr, st, p, ty, val, span, size=None):
        r = memroot(p)
        if r is None:
            return False
        b, off, t = r
        n = size or SZ.get(ty or t) or self.item
        key = ("M",) + b.a[1:]
        m = st.heap.get(key)
        if m is None:
            return True
        if m.k == "t" and m.a[0] == "input":
            self.stores.append((m.a[1], off, val, span))
            if m.a[3] is None and off is not None:
                pass
            return True
        cs, wild = cells(m)
        f = flow(val)
        if f is None and val.k != "u":
            val = mk("u", "data")
        if val.k == "A" and val.a[0] != "()" and f is not None:
            val = dep(*f)
        if off is None or off.k != "k":
            for q in cs:
                cs[q] = (cs[q][0], blend(cs[q][1], val))
            st.heap[key] = block(cs, val if wild is None else blend(wild, val))
            return True
        o = off.a[0]
        for q in [q for q in cs if q < o + n and q + cs[q][0] > o]:
            del cs[q]
        if wild is not None:
            val = blend(val, wild)
        cs[o] = (n, val)
        st.heap[key] = block(cs, wild)
        return True

    def load_val(self, it, st, p, ty):
        return self.get(it, st, p, ty)

    def on_store(self, it, fr, st, p, ty, val, span):
        self.put(it, fr, st, p, ty, val, span)

    def copy(self, it, fr, st, src, dst, nbytes, span):
        n = it.known(st, nbytes)
        a, b = memroot(src), memroot(dst)
        if n.k != "k" or n.a[0] > 8 * 256:
            if b is not None:
                self.put(it, fr, st, T("padd", dst, mk("u", "any"), 1), None, mk("u", "copied"), span)
            return
        k = 0
        while k < n.a[0]:
            sz = self.item
            if a is not None:
                m = st.heap.get(("M",) + a[0].a[1:])
                if m is not None and m.a[0] == "input":
                    sz = m.a[4]
                elif m is not None and m.a[0] == "mem":
                    sz = min([z for z, _ in cells(m)[0].values()] or [sz])
            sz = min(sz, n.a[0] - k)
            v = self.get(it, st, padd(src, K(k), 1), None) if a is not None else mk("u", "copied")
            if a is not None and a[1] is not None and a[1].k == "k":
                m = st.heap.get(("M",) + a[0].a[1:])
                if m is not None and m.a[0] == "mem":
                    c = cells(m)[0].get(a[1].a[0] + k)
                    if c is not None and k + c[0] <= n.a[0]:
                        sz = c[0]
            if b is not None:
                self.put(it, fr, st, padd(dst, K(k), 1), None, v if v is not None else mk("u", "copied"), span, sz)
            k += sz

    def on_ext(self, it, fr, st, path, fn, args, span):
        if path == "intrinsics::copy_nonoverlapping" and fn is None:
            self.copy(it, fr, st, args[0], args[1], it.binop(st, "Mul", it.known(st, args[2]), K(1), "usize"), span)

    def ret_ext(self, it, fr, st, path, args, site, retty):
        if retty in NUM:
            s, may = frozenset(), False
            for a in args:
                r = flow(snap(it, st, a))
                if r is None:
                    return None
                s, may = s | r[0], may or r[1]
            if s:
                return dep(s, may)
        return None


WIDE = {"i64": 63, "u64": 64, "i128": 127, "u128": 128, "isize": 63, "usize": 64, "i32": 31, "u32": 32, "i16": 15, "u16": 16, "f64": 53, "f32": 24}
MANT = {"f64": 53, "f32": 24, "half::f16": 11}


def lossy(a, b):
    """Does a conversion from a to the floating type b round some values?"""
    return a in WIDE and b in MANT and WIDE[a] > MANT[b]


class FInterp(GInterp):
    generic = True

    def binop(self, st, op, a, b, ty):
        if (a.k == "t" and a.a[0] in ("el", "dep")) or (b.k == "t" and b.a[0] in ("el", "dep")):
            x, y = flow(a), flow(b)
            if x is not None and y is not None:
                r = dep(x[0] | y[0], x[1] or y[1])
                return tup(r, FALSE) if op.endswith("WithOverflow") else r
        return GInterp.binop(self, st, op, a, b, ty)

    def unop(self, st, op, a, ty):
        if a.k == "t" and a.a[0] in ("el", "dep"):
            return dep(*flow(a))
        return GInterp.unop(self, st, op, a, ty)

    def cast(self, fr, st, rv, span):
        v = self.operand(fr, st, rv[2], span)
        if v.k == "t" and v.a[0] in ("el", "dep"):
            if v.a[0] == "el" and rv[1].startswith(("IntToFloat", "FloatToFloat")) and lossy(rv[3], rv[4]):
                return mk("t", "dep", frozenset((v,)), False, "rounded")
            return v
        return GInterp.cast(self, fr, st, rv, span)

    def slice_elem(self, obj, cur, i):
        """The pointer to element i of a slice made from a raw pointer."""
        v = obj[1]
        if cur or v.k != "t" or v.a[0] != "rawslice" or v.a[3] not in SZ:
            return None
        return mk("t", "tp", padd(v.a[1], i, SZ[v.a[3]]), v.a[3])

    def setobj(self, st, obj, v):
        if obj[0] == "D" and memroot(obj[1]) is not None:
            self.obs.put(self, None, st, obj[1], None, v, None)
            return
        GInterp.setobj(self, st, obj, v)

    def joinval(self, a, b, key, header):
        if a is b:
            return a
        if a.k == "t" and a.a[0] == "mem" and b.k == "t" and b.a[0] == "mem":
            ca, wa = cells(a)
            cb, wb = cells(b)
            out = {}
            zero = flk(0.0)
            for o in set(ca) | set(cb):
                x, y = ca.get(o), cb.get(o)
                if x is not None and y is not None and x[0] == y[0]:
                    out[o] = (x[0], self.joinval(x[1], y[1], key + (o,), header))
                elif x is None or y is None:
                    z = x or y
                    out[o] = (z[0], self.joinval(z[1], zero, key + (o,), header))
                else:
                    out[o] = (max(x[0], y[0]), mk("u", "overlap"))
            w = wa if wb is None else wb if wa is None else wa if wa is wb else blend(wa, wb)
            return block(out, w)
        fa, fb = a.k == "t" and a.a[0] in ("el", "dep"), b.k == "t" and b.a[0] in ("el", "dep")
        if fa or fb:
            x, y = flow(a), flow(b)
            if x is not None and y is not None:
                return dep(x[0] | y[0], True)
            return mk("u", "joined")
        return GInterp.joinval(self, a, b, key, header)


def farray(nm, shape, dt, heap, contig, itemsize, data=None, buflen=None):
    """An array of the given dimensions over its own buffer.  contig 'c'/'f': strides of that layout; otherwise symbols."""
    blk = mk("u", "mem", nm)
    alls = None
    if contig in ("c", "f", "r", "n", "m"):
        st, acc = [0] * len(shape), itemsize
        order = range(len(shape) - 1, -1, -1) if contig != "f" else range(len(shape))
        for i in order:
            st[i] = acc
            acc *= shape[i]
        # r/n: every second row, the rows in reverse: the inner axes stay contiguous; m: the columns in reverse
        if contig == "r" and shape:
            st[0] *= 2
        if contig == "n" and shape:
            st[0] = -st[0]
        if contig == "m" and shape:
            st[-1] = -st[-1]
        strides = [K(s) for s in st]
        off = K(0) if data is not None else S(nm, "offset")
    else:
        # strides are multiples of the element size; layouts b/d: a broadcast view, without step along its first/last axis
        strides = [lin(0, {S(nm, "stride", i): itemsize}) for i in range(len(shape))]
        if contig in ("b", "d") and shape:
            strides[0 if contig == "b" else -1] = K(0)
        off = S(nm, "offset")
    alls = frozenset(el(nm, a) for a in addresses(off, shape, strides))
    heap[("M", nm)] = mk("t", "input", nm, alls, tuple(data) if data is not None else None, itemsize)
    buf = ("B", nm)
    heap[buf] = mk("A", "rumpy::array::buffer::ArrayBuffer", 0, (blk,))
    return mk("A", ARR, 0, (mk("R", buf, (), 0), off, vec(*[K(d) for d in shape]), vec(*strides), dt, mk("u", nm, "flags")))


def addresses(off, shape, strides):
    """Byte offsets of the elements in index order."""
    out = [lin_of(off)]
    if any(x is None for x in out) or any(lin_of(s) is None for s in strides):
        return []
    for d, s in zip(shape, strides):
        c, m = lin_of(s)
        nxt = []
        for b in out:
            for i in range(d):
                mm = dict(b[1])
                for k, q in m.items():
                    mm[k] = mm.get(k, 0) + i * q
                nxt.append((b[0] + i * c, mm))
        out = nxt
    return [lin(c, m) for c, m in out]


class FBuilder(Builder):
    def __init__(self, D, dt, contig):
        Builder.__init__(self, D, dt)
        self.contig = contig
        self.made = {}
        self.given = {}

    def arr(self, x):
        dt = getattr(x, "dt", None) or self.dt
        self.names.append(x.nm)
        size = ITEM.get(dt.split("[")[0], 8)
        data = getattr(x, "data", None)
        if data is not None:
            data = [K(v) if isinstance(v, int) else flk(v) for v in data]
        v = farray(x.nm, x.shape, self.D.val[dt], self.heap, "c" if data is not None else self.contig, size, data)
        self.made[x.nm] = v
        self.given[x.nm] = data is not None
        return v


# ------------------------------------------------------------------ models
FM = {}


def f(*paths):
    def d(fn):
        for p in paths:
            FM[p] = fn
        return fn
    return d


@f("std::vec::from_elem")
def f_from_elem(it, fr, st, fn, args, argtys, site, span, retty):
    n = it.known(st, args[1])
    if retty == "std::vec::Vec<u8>":
        b = mk("u", "mem", fr.key, site)
        st.heap[("M", fr.key, site)] = block({}, None)
        return st, b
    if n.k != "k" or not 0 <= n.a[0] <= MAXLEN:
        return NI
    return st, vec(*[args[0]] * n.a[0])


@f("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
def f_raw(it, fr, st, fn, args, argtys, site, span, retty):
    return NI


def rawelems(it, st, v):
    v = it.resolve(st, v)
    if v.k == "t" and v.a[0] == "rawslice":
        n = it.known(st, v.a[2])
        sz = SZ.get(v.a[3])
        if n.k == "k" and n.a[0] <= MAXLEN and sz:
            return [mk("t", "tp", padd(v.a[1], K(i), sz), v.a[3]) for i in range(n.a[0])]
    return None


_seq = geom.seq


def seq2(it, st, v, ty=None):
    r = rawelems(it, st, v)
    return r if r is not None else _seq(it, st, v, ty)


geom.seq = seq2


@f("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy",
   "std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping", "std::ptr::const_ptr::<impl *const T>::copy_to", "std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "std::ptr::mut_ptr::<impl *mut T>::copy_from")
def f_copy(it, fr, st, fn, args, argtys, site, span, retty):
    ty = fn.get("res_args", fn["args"])[0]
    src, dst = (args[1], args[0]) if "copy_from" in fn["path"] else (args[0], args[1])
    sz = SZ.get(ty)
    n = it.known(st, args[2])
    if sz is None or n.k != "k":
        it.obs.copy(it, fr, st, src, dst, mk("u", "n"), span)
        return st, UNIT
    if src.k == "R":
        a, es = place_vec(it, st, src)
        if es is not None and memroot(dst) is not None:
            for i in range(min(n.a[0], len(es))):
                it.obs.put(it, fr, st, padd(dst, K(i), sz), ty, es[i], span)
            return st, UNIT
    it.obs.copy(it, fr, st, src, dst, K(n.a[0] * sz), span)
    return st, UNIT


@f("std::ptr::write_bytes", "std::ptr::mut_ptr::<impl *mut T>::write_bytes")
def f_wb(it, fr, st, fn, args, argtys, site, span, retty):
    ty = fn.get("res_args", fn["args"])[0]
    n, sz = it.known(st, args[2]), SZ.get(ty)
    if n.k == "k" and sz and n.a[0] * sz <= 4096:
        for i in range(0, n.a[0] * sz, it.obs.item):
            it.obs.put(it, fr, st, padd(args[0], K(i), 1), None, K(0), span)
        return st, UNIT
    return NI


def f_fold_sorted(it, fr, st, fn, args, argtys, site, span, retty):
    a, es = place_vec(it, st, args[0])
    raw = None
    if es is None:
        raw = rawelems(it, st, args[0])
        if raw is None:
            return NI
        es = [it.pointee(st, e) for e in raw]
    if not any(hasel(e) for e in es):
        if raw is not None:
            return NI
        h = GM.get(fn["path"])
        return h(it, fr, st, fn, args, argtys, site, span, retty) if h else NI
    s = frozenset()
    for e in es:
        r = flow(e)
        if r is None:
            return NI
        s |= r[0]
    new = [dep(s, True)] * len(es) if len(es) > 1 else es
    if raw is not None:
        for p, v in zip(raw, new):
            it.obs.put(it, fr, st, p, None, v, span)
    else:
        setvec(it, fr, st, a, new, site)
    if fn["path"].rsplit("::", 1)[-1].startswith("select"):
        return st, mk("u", "selected", fr.key, site)
    return st, UNIT


for n in ("sort", "sort_by", "sort_by_key", "sort_by_cached_key"):
    FM["std::slice::<impl [T]>::" + n] = f_fold_sorted
for n in ("sort_unstable", "sort_unstable_by", "sort_unstable_by_key"):
    FM["core::slice::<impl [T]>::" + n] = f_fold_sorted


def f_padd(orig):
    def h(it, fr, st, fn, args, argtys, site, span, retty):
        st, v = orig(it, fr, st, fn, args, argtys, site, span, retty)
        p = it.resolve(st, args[0])
        if p.k == "R":
            n = it.known(st, v.a[2]) if v.k == "t" and v.a[0] == "padd" else K(0)
            w = it.resolve(st, it.pointee(st, p))
            if isvec(w) and n.k == "k":
                return st, mk("R", p.a[0], p.a[1] + (("i", n),), p.a[2])
            if p.a[1] and p.a[1][-1][0] == "i" and n.k == "k" and p.a[1][-1][1].k == "k":
                return st, mk("R", p.a[0], p.a[1][:-1] + (("i", K(p.a[1][-1][1].a[0] + n.a[0])),), p.a[2])
        return st, v
    return h


for c in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
    for m in ("add", "offset", "wrapping_add", "wrapping_offset", "sub"):
        FM["std::ptr::%s::%s" % (c, m)] = f_padd(MODELS["std::ptr::%s::%s" % (c, m)])


def f_do_call(self, fr, st, fn, fv, args, argtys, site, span, retty):
    if fn is not None:
        for path in (fn.get("res", fn["path"]), fn["path"]):
            m = FM.get(path)
            if m is not None:
                r = m(self, fr, st, fn, args, argtys, site, span, retty)
                if r is not NI:
                    return r
                break
    return GInterp.do_call(self, fr, st, fn, fv, args, argtys, site, span, retty)


FInterp.do_call = f_do_call


ITEM = {"bool": 1, "int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "float16": 2, "int32": 4, "uint32": 4, "float32": 4, "complex128": 16}


def fcall(prog, D, fn, args, dt="float64", contig="", max_steps=600_000, cls=None):
    cls = cls or (FInterp, Flow)
    B = FBuilder(D, dt, contig)
    vs = [B.arg(fn["locals"][k + 1][0], args[k]) for k in range(fn["argc"])]
    def flags(n):
        dims = [d.a[0] for d in B.made[n].a[2][2].a[2]]
        k = 1
        for d in dims:
            k *= d
        return "cf" if k <= 1 else "c" if B.given.get(n) else contig
    o = cls[1]({n: flags(n) for n in B.names}, ITEM.get(dt.split("[")[0], 8))
    it = cls[0](prog, o, max_steps=max_steps)
    it.max_rec = 3
    try:
        r = it.run(fn, vs, heap=B.heap)
    except Budget:
        r = "budget"
    return it, o, r, B


ITEMS = {"Bool": 1, "Int8": 1, "Uint8": 1, "Int16": 2, "Uint16": 2, "Float16": 2, "Int32": 4, "Uint32": 4, "Float32": 4, "Int64": 8, "Uint64": 8, "Float64": 8, "Complex64": 8, "Complex128": 16, "DateTime64": 8, "TimeDelta64": 8}


def itemsize(it, st, r):
    x = it.resolve(st, r.a[2][4])
    t = show(x, 5)
    for n, k in ITEMS.items():
        if "<I,%sOps#" % n in t:
            return k
    return None


def contents(it, st, v, parts=False):
    """(dimensions, element values in index order, buffer reference) of an array value, or None."""
    shape, strides, off = v.a[2][2], v.a[2][3], v.a[2][1]
    if not isvec(shape) or not isvec(strides) or any(it.known(st, d).k != "k" for d in shape.a[2]) or lin_of(it.known(st, off)) is None:
        return None
    dims = [it.known(st, d).a[0] for d in shape.a[2]]
    sts = [it.known(st, s) for s in strides.a[2]]
    n = 1
    for d in dims:
        n *= d
    if len(sts) != len(dims) or n > 400 or any(lin_of(s) is None for d, s in zip(dims, sts) if d > 1):
        return None
    sts = [s if lin_of(s) is not None else K(0) for s in sts]
    buf = it.resolve(st, v.a[2][0])
    blk = it.resolve(st, it.field(st, it.pointee(st, buf), 0)) if buf.k == "R" else None
    size = itemsize(it, st, v)
    if blk is None or memroot(blk) is None:
        return dims, None, buf
    cx = parts and {16: "num_complex::Complex<f64>", 8: "num_complex::Complex<f32>"}.get(size) if "<I,Complex" in show(it.resolve(st, v.a[2][4]), 5) else None
    return dims, [it.obs.get(it, st, padd(blk, a, 1), cx, size) for a in addresses(it.known(st, off), dims, sts)], buf
