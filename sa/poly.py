"""Values as polynomials in the input elements: what a result is computed as, up to rounding.

On top of the provenance domain (flow): sums, differences, products and quotients of element values are kept in a normal
form, a polynomial over the rationals whose indeterminates are input elements and applications of other functions (sqrt, abs,
cos, division by a non-constant ...) to polynomials.  Two computations with the same normal form are the same function of the
inputs over the reals, whatever the order and association of their operations."""
from fractions import Fraction
from flow import *
import flow as FL

MAXT = 600
IOPS = {"Add": 0, "Sub": 1, "Mul": 2}
FLOATS = ("f32", "f64", "half::f16", "half::binary16::f16")
ONE = frozenset()


class Big(Exception):
    pass


def isp(v):
    return v.k == "t" and v.a[0] in ("el", "poly", "app")


def terms(v):
    """{monomial: coefficient} of a value, or None."""
    if v.k == "k":
        return {ONE: Fraction(v.a[0])} if v.a[0] else {}
    if v.k == "fl":
        x = fval(v)
        if x is None or x != x or x in (float("inf"), float("-inf")):
            return None
        return {ONE: Fraction(x)} if x else {}
    if v.k == "t":
        if v.a[0] == "poly":
            return dict(v.a[1])
        if v.a[0] in ("el", "app"):
            return {frozenset(((v, 1),)): Fraction(1)}
    return None


def value(t, ty="f64"):
    """The value with these terms."""
    t = {m: c for m, c in t.items() if c}
    if len(t) > MAXT:
        raise Big()
    if not t:
        return K(0) if ty in INTW else flk(0.0)
    if len(t) == 1:
        (m, c), = t.items()
        if not m:
            return K(int(c)) if ty in INTW and c.denominator == 1 else flk(float(c))
        if c == 1 and len(m) == 1:
            (a, e), = m
            if e == 1:
                return a
    return mk("t", "poly", frozenset(t.items()))


def padd_(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return r


def pmul(a, b):
    if len(a) * len(b) > 20000:
        raise Big()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            q, w = c * d, {ONE: Fraction(1)}
            red = None
            for x, k in list(e.items()):
                # sqrt(p)^2 = p, abs(p)^2 = p^2
                if x.a[0] == "app" and k >= 2 and x.a[1] in ("sqrt", "abs"):
                    e[x] = k % 2
                    if not e[x]:
                        del e[x]
                    p = terms(x.a[2])
                    red = red or {ONE: Fraction(1)}
                    for _ in range(k // 2):
                        red = pmul(red, p if x.a[1] == "sqrt" else pmul(p, p))
                elif x.a[0] == "app" and x.a[1] == "inv":
                    # x * (1/x) = 1
                    y = x.a[2]
                    if y in e and isp(y) and y.a[0] != "poly":
                        z = min(e[y], k)
                        for u in (x, y):
                            e[u] -= z
                            if not e[u]:
                                del e[u]
            key = frozenset(e.items())
            if red is None:
                r[key] = r.get(key, 0) + q
            else:
                for m2, c2 in pmul({key: q}, red).items():
                    r[m2] = r.get(m2, 0) + c2
    return r


def app(name, *args):
    return mk("t", "app", name, *args)


def inv(t):
    """1/p, with the common factor of a single-term p taken out."""
    if len(t) == 1:
        (m, c), = t.items()
        r = {ONE: 1 / c}
        for x, k in m:
            y = x.a[2] if x.a[0] == "app" and x.a[1] == "inv" else app("inv", x)
            for _ in range(k):
                r = pmul(r, terms(y))
        return r
    # normalised: leading coefficient one
    lead = min(t.items(), key=lambda mc: order(mc[0]))[1]
    return {frozenset(((app("inv", value({m: c / lead for m, c in t.items()})), 1),)): 1 / lead}


ORD = {}


def order(m):
    r = ORD.get(m)
    if r is None:
        r = ORD[m] = tuple(sorted((show(x, 20), k) for x, k in m))
    return r


def pow_(t, n):
    r = {ONE: Fraction(1)}
    for _ in range(n):
        r = pmul(r, t)
    return r


class PFlow(Flow):
    def get(self, it, st, p, ty, size=None):
        r = memroot(p)
        if r is None:
            return None
        b, off, t = r
        ty = ty or t
        if ty in ("num_complex::Complex<f64>", "num_complex::Complex<f32>"):
            h = 8 if ty.endswith("<f64>") else 4
            q = mk("t", "tp", p, "f64" if h == 8 else "f32")
            x = self.get1(it, st, b, off, q.a[2])
            y = self.get1(it, st, b, it.binop(st, "Add", off, K(h), "usize") if off is not None else None, q.a[2])
            if x is None or y is None:
                return None
            return mk("A", "num_complex::Complex", 0, (x, y))
        return self.get1(it, st, b, off, ty, size)

    def get1(self, it, st, b, off, ty, size=None):
        m = st.heap.get(("M",) + b.a[1:])
        if m is not None and m.k == "t" and m.a[0] == "mem" and off is not None and off.k == "k":
            cs, wild = cells(m)
            o, n = off.a[0], SZ.get(ty) or size or self.item
            c = cs.get(o)
            if wild is None and c is None:
                near = [q for q in cs if q < o + n and q + cs[q][0] > o]
                if len(near) == 1 and near[0] < o and near[0] + cs[near[0]][0] >= o + n:
                    v = cs[near[0]][1]
                    if v.k == "t" and v.a[0] == "el" and lin_of(v.a[2]) is not None:
                        k, mm = lin_of(v.a[2])
                        return el(v.a[1], lin(k + o - near[0], mm))
                    if v.k in ("k", "fl") and fval(v) == 0:
                        return flk(0.0)
        p = padd(b, off, 1) if off is not None else padd(b, mk("u", "any"), 1)
        return Flow.get(self, it, st, p, ty, size)

    def put(self, it, fr, st, p, ty, val, span, size=None):
        if val.k == "A" and val.a[0] == "num_complex::Complex" and memroot(p) is not None:
            h = (size or SZ.get(ty) or self.item) // 2
            ft = "f64" if h == 8 else "f32"
            Flow.put(self, it, fr, st, p, ft, val.a[2][0], span, h)
            return Flow.put(self, it, fr, st, padd(p, K(h), 1), ft, val.a[2][1], span, h)
        return Flow.put(self, it, fr, st, p, ty, val, span, size)

    def ret_ext(self, it, fr, st, path, args, site, retty):
        if retty in NUM and retty != "bool":
            xs = [snap(it, st, a) for a in args]
            if any(isp(x) for x in xs):
                r = papply(it, st, path.rsplit("::", 1)[-1], xs, retty)
                if r is not None:
                    return r
        return Flow.ret_ext(self, it, fr, st, path, args, site, retty)


RENAME = {"fabs": "abs", "sqrtf64": "sqrt", "fabsf64": "abs", "powif64": "powi", "powf64": "powf", "fmaf64": "mul_add", "norm": "hypot", "maxnumf64": "max", "minnumf64": "min", "unsigned_abs": "abs"}


def papply(it, st, name, xs, ty):
    """The value of a numeric function applied to values of which some are polynomials, or None."""
    try:
        return papply1(it, st, name, xs, ty)
    except Big:
        return None


def papply1(it, st, name, xs, ty):
    name = RENAME.get(name, name)
    ts = [terms(x) for x in xs]
    if any(t is None for t in ts):
        return None
    for w in ("wrapping_", "saturating_", "checked_"):
        if name.startswith(w) and name[len(w):] in ("add", "sub", "mul", "neg"):
            if w == "checked_":
                return None
            name = name[len(w):]
    if name in ("add", "sub", "mul", "div") and len(ts) == 2:
        return arith(name.capitalize(), ts[0], ts[1], ty)
    if name == "neg":
        return value({m: -c for m, c in ts[0].items()}, ty)
    if name in ("mul_add", "fma", "algebraic_mul_add"):
        return value(padd_(pmul(ts[0], ts[1]), ts[2]), ty)
    if name == "powi" and xs[1].k == "k" and 0 <= xs[1].a[0] <= 6:
        return value(pow_(ts[0], xs[1].a[0]), ty)
    if name == "powf" and fval(xs[1]) in (0.0, 1.0, 2.0, 3.0, 4.0):
        return value(pow_(ts[0], int(fval(xs[1]))), ty)
    if name == "pow" and ty in INTW and xs[1].k == "k" and 0 <= xs[1].a[0] <= 6:
        return value(pow_(ts[0], xs[1].a[0]), ty)
    if name == "powf" and fval(xs[1]) == 0.5:
        return app("sqrt", xs[0])
    if name == "hypot":
        return app("sqrt", value(padd_(pmul(ts[0], ts[0]), pmul(ts[1], ts[1]))))
    if name == "recip":
        return value(inv(ts[0]), ty)
    if name == "abs":
        # abs(c*x) = |c| abs(x), abs(abs(x)) = abs(x)
        if len(ts[0]) == 1:
            (m, c), = ts[0].items()
            if len(m) == 1:
                (a, e), = m
                if a.a[0] == "app" and a.a[1] in ("abs", "sqrt") or e % 2 == 0:
                    return value({m: abs(c)}, ty)
            if c != 1:
                return value(pmul({ONE: abs(c)}, terms(app("abs", value({m: Fraction(1)}, ty)))), ty)
        if ts[0] and min(ts[0].items(), key=lambda mc: order(mc[0]))[1] < 0:
            return app("abs", value({m: -c for m, c in ts[0].items()}, ty))
        return app("abs", xs[0])
    if name in ("from", "into", "clone", "to_f64", "from_f64", "to_f32", "from_f32", "to_owned", "copysign_") and len(xs) == 1:
        return xs[0]
    if name in ("max", "min") and len(xs) == 2:
        s = []
        for x in xs:
            s += list(x.a[2:]) if x.k == "t" and x.a[0] == "app" and x.a[1] == name else [x]
        s = sorted(set(s), key=lambda x: show(x, 20))
        return s[0] if len(s) == 1 else app(name, *s)
    return app(name, *xs)


def arith(op, x, y, ty):
    if op == "Add":
        return value(padd_(x, y), ty)
    if op == "Sub":
        return value(padd_(x, y, -1), ty)
    if op == "Mul":
        return value(pmul(x, y), ty)
    if op == "Div" and ty in FLOATS and y:
        return value(pmul(x, inv(y)), ty)
    return None


def ptr_like(v):
    return v.k == "t" and v.a[0] in ("padd", "mem", "rawslice", "tp")


class PInterp(FInterp):
    def binop(self, st, op, a, b, ty):
        if isp(a) or isp(b):
            base = op[:-12] if op.endswith("WithOverflow") else op[:-9] if op.endswith("Unchecked") else op
            x, y = terms(a), terms(b)
            if x is not None and y is not None:
                try:
                    r = None
                    if base in ("Add", "Sub", "Mul", "Div"):
                        r = arith(base, x, y, ty)
                    if r is None and base in ("Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
                        r = app(base, value(x, ty), value(y, ty))
                    if r is not None:
                        return tup(r, FALSE) if op.endswith("WithOverflow") else r
                except Big:
                    r = blend(a, b, False)
                    return tup(r, FALSE) if op.endswith("WithOverflow") else r
            f, g = FL.flow(a), FL.flow(b)
            if f is not None and g is not None:
                r = dep(f[0] | g[0], f[1] or g[1])
                return tup(r, FALSE) if op.endswith("WithOverflow") else r
        return FInterp.binop(self, st, op, a, b, ty)

    def unop(self, st, op, a, ty):
        if isp(a):
            if op == "Neg":
                return value({m: -c for m, c in terms(a).items()}, ty)
            return app(op, a)
        return FInterp.unop(self, st, op, a, ty)

    def cast(self, fr, st, rv, span):
        v = self.operand(fr, st, rv[2], span)
        if isp(v):
            k, a, b = rv[1], rv[3], rv[4]
            if k.startswith("IntToFloat"):
                return app("round", v) if lossy(a, b) else v
            if k.startswith("FloatToFloat"):
                return app("round", v) if lossy(a, b) else v
            if k.startswith("IntToInt"):
                if a in INTW and b in INTW and SZ.get(b, 0) >= SZ.get(a, 9):
                    return v
                return app("as " + str(b), v)
            if k.startswith("FloatToInt"):
                return app("trunc", v)
        return FInterp.cast(self, fr, st, rv, span)

    def joinval(self, a, b, key, header):
        if a is not b and (a.k == "t" and a.a[0] in ("poly", "app") or b.k == "t" and b.a[0] in ("poly", "app")):
            x, y = FL.flow(a), FL.flow(b)
            if x is not None and y is not None:
                return dep(x[0] | y[0], True)
            return mk("u", "joined")
        return FInterp.joinval(self, a, b, key, header)


# flow() sees through polynomials
_flow0 = FL.flow


def flow(v, d=0):
    if v.k == "t" and v.a[0] == "poly":
        s, may = frozenset(), False
        for m, _ in v.a[1]:
            for x, _ in m:
                r = flow(x, d + 1)
                if r is None:
                    return None
                s, may = s | r[0], may or r[1]
        return s, may
    return _flow0(v, d)


FL.flow = flow


# ------------------------------------------------------------------ comparison with an expected expression
def build(e, atom, cplx=None):
    """The terms of an expected expression [[coefficient numerator, denominator, [factor...]]...]; a factor is [array, index] or
    [array, index, part] or {"f": name, "x": [expression...]}."""
    t = {}
    for num, den, fs in e:
        q = {ONE: Fraction(num, den)}
        for f in fs:
            if isinstance(f, dict):
                xs = [build(x, atom) for x in f["x"]]
                n = f["f"]
                g = inv(xs[0]) if n == "inv" else terms(papply1(None, None, n, [value(x) for x in xs], "f64"))
            else:
                g = terms(atom(f))
            q = pmul(q, g)
        t = padd_(t, q)
    return t


def strip(t):
    """Without the marks of roundings on the way."""
    r = {}
    for m, c in t.items():
        q = {ONE: c}
        for x, k in m:
            y = stripa(x)
            for _ in range(k):
                q = pmul(q, y)
        r = padd_(r, q)
    return r


def stripa(x):
    if x.a[0] == "app":
        if x.a[1] == "round":
            return strip(terms(x.a[2]))
        if x.a[1] == "trunc":
            t = strip(terms(x.a[2]))
            if all(c.denominator == 1 and all(y.a[0] == "el" for y, _ in m) for m, c in t.items()):
                return t
        if x.a[1] == "inv":
            return inv(strip(terms(x.a[2])))
        r = papply1(None, None, x.a[1], [value(strip(terms(y))) for y in x.a[2:]], "f64")
        return terms(r)
    return terms(x)


def rnd(c):
    return float("%.9g" % float(c))


def key(t):
    """A comparable form, coefficients to nine digits."""
    return frozenset((frozenset((akey(x), k) for x, k in m), rnd(c)) for m, c in t.items() if abs(c) > Fraction(1, 10 ** 14))


def akey(x):
    if x.a[0] == "app":
        return (x.a[1],) + tuple(key(terms(y)) for y in x.a[2:])
    return x


def rounded(v, d=0):
    """Is some element or intermediate value rounded to a floating type on the way?"""
    if v.k != "t" or d > 20:
        return False
    if v.a[0] == "app":
        return v.a[1] == "round" or any(rounded(x, d + 1) for x in v.a[2:])
    if v.a[0] == "poly":
        return any(rounded(x, d + 1) for m, _ in v.a[1] for x, _ in m)
    return False


# ------------------------------------------------------------------ library models
import re
from geom import g, NI
from interp import adt as _adt


def unwrap(it, st, v):
    v = it.resolve(st, v)
    if v.k == "R":
        v = it.resolve(st, it.readp(st, v.a[0], v.a[1]))
    if v.k == "A" and "Wrapping" in v.a[0]:
        v = v.a[2][0]
    return v


def f_wrapping(op):
    def h(it, fr, st, fn, args, argtys, site, span, retty):
        m = re.search(r"Wrapping<(\w+)>", fn.get("res", fn["path"]))
        a, b = unwrap(it, st, args[0]), unwrap(it, st, args[1])
        r = it.binop(st, op, a, b, m.group(1))
        return st, (r.a[2][0] if r.k == "A" else r)
    return h


for _t in INTW:
    SZ.setdefault("std::num::Wrapping<%s>" % _t, SZ.get(_t))
    for _o in ("Add", "Mul", "Sub"):
        FL.FM["<std::num::Wrapping<%s> as std::ops::%s>::%s" % (_t, _o, _o.lower())] = f_wrapping(_o)


@FL.f("<std::num::Wrapping<T> as std::default::Default>::default")
def f_wdef(it, fr, st, fn, args, argtys, site, span, retty):
    return st, K(0)


def mat(p, m, n, rs, cs):
    return _adt("faer::Mat", 0, p, m, n, rs, cs)


@FL.f("faer::mat::from_raw_parts", "faer::mat::from_raw_parts_mut")
def f_mat(it, fr, st, fn, args, argtys, site, span, retty):
    return st, mat(*args)


@FL.f("faer::MatRef::<'a, E, R, C>::as_ref", "faer::MatMut::<'a, E, R, C>::as_mut", "faer::MatMut::<'a, E, R, C>::as_ref", "faer::MatRef::<'a, E, R, C>::transpose")
def f_asref(it, fr, st, fn, args, argtys, site, span, retty):
    v = it.resolve(st, args[0])
    if v.k == "R":
        v = it.resolve(st, it.readp(st, v.a[0], v.a[1]))
    if fn["path"].endswith("transpose"):
        if v.k != "A" or v.a[0] != "faer::Mat":
            return NI
        p, m, n, rs, cs = v.a[2]
        v = mat(p, n, m, cs, rs)
    return st, v


@FL.f("faer::complex_native::c32_impl::<impl faer::complex_native::c32>::new", "faer::complex_native::c64_impl::<impl faer::complex_native::c64>::new")
def f_c64new(it, fr, st, fn, args, argtys, site, span, retty):
    return st, mk("A", "num_complex::Complex", 0, tuple(args))


def cparts(v):
    return v.a[2] if v.k == "A" and v.a[0] == "num_complex::Complex" else None


@FL.f("faer::linalg::matmul::matmul")
def f_matmul(it, fr, st, fn, args, argtys, site, span, retty):
    """acc = [alpha *] acc + beta * lhs * rhs."""
    ms = [it.resolve(st, x) for x in args[:3]]
    ms = [it.resolve(st, it.readp(st, x.a[0], x.a[1])) if x.k == "R" else x for x in ms]
    if any(x.k != "A" or x.a[0] != "faer::Mat" for x in ms):
        return NI
    alpha, beta = it.resolve(st, args[3]), it.resolve(st, args[4])
    if alpha.k != "A" or alpha.a[1] != 0:
        return NI
    m = re.search(r"MatMut<'[^,]*, ([\w:]+)", argtys[0]) or re.search(r"MatRef<'[^,]*, ([\w:]+)", argtys[1])
    e = m.group(1) if m else None
    h = {"f64": 8, "f32": 4, "faer::complex_native::c64": 8, "faer::complex_native::c32": 4}.get(e)
    if h is None:
        return NI
    cx = "complex" in e
    es, ft = h * (1 + cx), "f64" if h == 8 else "f32"
    (pc, mc, nc, rc, cc), (pa, ma, na, ra, ca), (pb, mb, nb, rb, cb) = [x.a[2] for x in ms]
    M, N, Pn = [it.known(st, x) for x in (ma, na, nb)]
    if any(x.k != "k" for x in (M, N, Pn)) or M.a[0] * N.a[0] * Pn.a[0] > 4096:
        return NI

    def at(p, i, j, r, c, part=0):
        o = it.binop(st, "Add", it.binop(st, "Mul", it.known(st, r), K(i), "isize"), it.binop(st, "Mul", it.known(st, c), K(j), "isize"), "isize")
        o = it.binop(st, "Add", it.binop(st, "Mul", o, K(es), "isize"), K(part), "isize")
        return padd(p, o, 1)

    def load(p, i, j, r, c):
        xs = [it.obs.get(it, st, at(p, i, j, r, c, k * h), ft) or mk("u", "any") for k in range(1 + cx)]
        return xs
    B = cparts(beta) if cx else [beta]
    if B is None:
        return NI
    bop = lambda o, x, y: it.binop(st, o, x, y, ft)

    def mul(x, y):
        if not cx:
            return [bop("Mul", x[0], y[0])]
        return [bop("Sub", bop("Mul", x[0], y[0]), bop("Mul", x[1], y[1])), bop("Add", bop("Mul", x[0], y[1]), bop("Mul", x[1], y[0]))]
    for i in range(M.a[0]):
        for j in range(Pn.a[0]):
            s = [flk(0.0)] * (1 + cx)
            for k in range(N.a[0]):
                t = mul(load(pa, i, k, ra, ca), load(pb, k, j, rb, cb))
                s = [bop("Add", u, v) for u, v in zip(s, t)]
            s = mul(list(B), s)
            for q in range(1 + cx):
                if pc.k == "R":     # a single local
                    if M.a[0] * Pn.a[0] != 1 or cx:
                        return NI
                    it.writep(fr, st, pc.a[0], pc.a[1], s[q], site)
                else:
                    it.obs.put(it, fr, st, at(pc, i, j, rc, cc, q * h), ft, s[q], span, h)
    return st, tup()


def f_opassign(op, scalar):
    def h(it, fr, st, fn, args, argtys, site, span, retty):
        """*self = *self op other, for a complex local."""
        p = it.resolve(st, args[0])
        if p.k != "R":
            return NI
        cur = it.resolve(st, it.readp(st, p.a[0], p.a[1]))
        m = MODELS["<num_complex::Complex<T> as std::ops::%s%s>::%s" % (op, "<T>" if scalar else "", op.lower())]
        r = m(it, fr, st, fn, [cur] + list(args[1:]), argtys, site, span, retty)
        if r is None:
            return None
        st, v = r
        it.writep(fr, st, p.a[0], p.a[1], v, (fr.key, site))
        return st, UNIT
    return h


for _o in ("Add", "Sub", "Mul", "Div"):
    for _s in (False, True):
        FL.FM["num_complex::opassign::<impl std::ops::%sAssign%s for num_complex::Complex<T>>::%s_assign" % (_o, "<T>" if _s else "", _o.lower())] = f_opassign(_o, _s)
