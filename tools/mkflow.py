"""Oracle for the element provenance checks (C10 ...): for each call, the dimensions NumPy's result has and, per element,
which input element it is a copy of (kind copy) or which input elements it is computed from (kind dep).
Run once with NumPy: python3-vt tools/mkflow.py; the table is committed as sa/oracle/flow.json.gz."""
import gzip
import itertools
import json
import os
import sys
from fractions import Fraction
import numpy as np

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa", "oracle", "flow.json.gz")
CASES = []


class Dp:
    """A value known only by the input elements it is computed from."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = frozenset(s)

    def _b(self, o):
        return Dp(self.s | (o.s if isinstance(o, Dp) else frozenset()))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __floordiv__ = __rfloordiv__ = __mod__ = __and__ = __or__ = _b

    def __neg__(self):
        return self

    def conjugate(self):
        return self


def P_(x):
    return x if isinstance(x, Q) else Q({(): Fraction(x)})


class Q:
    """A polynomial: {sorted tuple of factors: coefficient}; a factor is (array, index[, part]) or ("f", function, arguments)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}

    def __add__(self, o):
        if isinstance(o, C):
            return NotImplemented
        r = dict(self.t)
        for m, c in P_(o).t.items():
            r[m] = r.get(m, 0) + c
        return Q(r)
    __radd__ = __add__

    def __neg__(self):
        return Q({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, C):
            return NotImplemented
        r = {}
        for m, c in self.t.items():
            for n, d in P_(o).t.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = r.get(k, 0) + c * d
        return Q(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, C):
            return NotImplemented
        o = P_(o)
        if set(o.t) == {()}:
            return self * (1 / o.t[()])
        return self * fn("inv", o)

    def __rtruediv__(self, o):
        return P_(o) / self

    def __pow__(self, n):
        r = Q({(): Fraction(1)})
        for _ in range(int(n)):
            r = r * self
        return r

    def conjugate(self):
        return self

    def __abs__(self):
        return fn("abs", self)

    def sqrt(self):
        return fn("sqrt", self)

    def j(self):
        return [[c.numerator, c.denominator, [{"f": f[1], "x": [x.j() for x in f[2]]} if f[0] == "f" else list(f) for f in m]] for m, c in sorted(self.t.items(), key=repr)]

    def __repr__(self):
        return json.dumps(self.j())


def fn(name, *xs):
    return Q({(("f", name, tuple(P_(x) for x in xs)),): Fraction(1)})


def C_(x):
    if isinstance(x, C):
        return x
    if isinstance(x, Q):
        return C(x, P_(0))
    x = complex(x)
    return C(P_(Fraction(x.real)), P_(Fraction(x.imag)))


class C:
    """A complex value: two polynomials."""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = P_(re), P_(im)

    def __add__(self, o):
        o = C_(o)
        return C(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return C(-self.re, -self.im)

    def __sub__(self, o):
        return self + (-C_(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = C_(o)
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = C_(o)
        if not o.im.t:
            return C(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return C(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return C_(o) / self

    def __pow__(self, n):
        r = C_(1)
        for _ in range(int(n)):
            r = r * self
        return r

    def conjugate(self):
        return C(self.re, -self.im)

    def __abs__(self):
        return C(fn("sqrt", self.re * self.re + self.im * self.im), 0)

    def sqrt(self):
        if self.im.t:
            raise TypeError("complex")
        return C(fn("sqrt", self.re), 0)


class A:
    """An array argument."""

    def __init__(self, nm, *shape, dt=None, data=None):
        self.nm, self.shape, self.dt, self.data = nm, shape, dt, data

    def j(self):
        d = {"a": self.nm, "sh": list(self.shape)}
        if self.dt:
            d["dt"] = self.dt
        if self.data is not None:
            d["data"] = list(self.data)
        return d


def jspec(x):
    if isinstance(x, A):
        return x.j()
    if isinstance(x, slice):
        return {"sl": [x.start, x.stop, x.step]}
    if x is Ellipsis:
        return {"el": 1}
    if isinstance(x, tuple):
        return {"t": [jspec(y) for y in x]}
    if isinstance(x, list):
        return {"l": [jspec(y) for y in x]}
    return x


ORDER = "abcd"


def ids(x, arrs, dep):
    if isinstance(x, A):
        if x.data is not None:
            r = np.array(x.data).reshape(x.shape)
            r = r.astype(x.dt or "int64")
        elif dep:
            n = int(np.prod(x.shape, dtype=int))
            r = np.empty(n, object)
            for i in range(n):
                r[i] = Q({((x.nm, i),): Fraction(1)}) if dep == "poly" else C(Q({((x.nm, i, 0),): Fraction(1)}), Q({((x.nm, i, 1),): Fraction(1)})) if dep == "cpoly" else Dp([(x.nm, i)])
            r = r.reshape(x.shape)
        else:
            r = (np.arange(int(np.prod(x.shape, dtype=int))) + 1000 * (1 + ORDER.index(x.nm))).reshape(x.shape)
        arrs[x.nm] = r
        return r
    if isinstance(x, tuple):
        return tuple(ids(y, arrs, dep) for y in x)
    if isinstance(x, list):
        return [ids(y, arrs, dep) for y in x]
    return x


def expect(r, arrs, dep, view):
    if isinstance(r, (list, tuple)):
        return {"list": [expect(y, arrs, dep, view) for y in r]}
    r0 = r
    r = np.asarray(r)
    out = {"shape": list(r.shape)}
    es = []
    for v in r.reshape(-1):
        if dep == "poly":
            es.append(P_(v).j())
        elif dep == "cpoly":
            es.append({"re": C_(v).re.j(), "im": C_(v).im.j()})
        elif isinstance(v, Dp):
            es.append(sorted([n, int(i)] for n, i in v.s))
        elif dep:
            es.append([])
        else:
            v = int(v)
            es.append([ORDER[v // 1000 - 1], v % 1000] if v >= 1000 else ["const", v])
    out["els"] = es
    if view and isinstance(r0, np.ndarray) and r.size:
        out["base"] = [n for n, x in arrs.items() if isinstance(x, np.ndarray) and np.shares_memory(x, r0)]
    return out


def case(prop, fn, args, f, kind="copy", view=None, cx=True, **kw):
    """args: the Rust function's arguments; f(*decoded) the NumPy call."""
    arrs = {}
    dep = kind == "dep" or kind == "poly" and "poly"
    dec = [ids(x, arrs, dep) for x in args]
    try:
        r = f(*dec)
        e = expect(r, arrs, dep, view if view is not None else kind == "copy")
    except Exception as ex:
        e = {"error": type(ex).__name__}
        if kind != "copy":
            try:
                f(*[ids(x, {}, False) for x in args])
            except Exception:
                pass
            else:
                raise
    if kind == "poly" and "error" not in e and cx:
        try:
            arrs = {}
            r = f(*[ids(x, arrs, "cpoly") for x in args])
            e["c"] = expect(r, arrs, "cpoly", False)
        except Exception as ex:
            pass
    c = {"p": prop, "fn": fn, "args": [jspec(x) for x in args], "kind": kind, "exp": e}
    c.update(kw)
    CASES.append(c)


for src in ("flowcases.py", "flowcases11.py", "flowcases14.py"):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), src)).read())
os.makedirs(os.path.dirname(OUT), exist_ok=True)
with gzip.GzipFile(OUT, "wb", mtime=0) as f:
    f.write(json.dumps(CASES, separators=(",", ":")).encode())
from collections import Counter
print(len(CASES), Counter(c["p"] for c in CASES), os.path.getsize(OUT))
