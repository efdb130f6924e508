"""Value-class domain: a partition of every numeric type into exceptional values, small constants and the
intervals between them, with transfer functions that over-approximate the machine operations.

A class is an interval [lo, hi] of its type (a single value when lo == hi); NaN is a class of its own and the
two zeros are distinct.  Transfer functions of monotone operations evaluate the interval corners and take every
class between the extreme results; where no bound is known the result is the whole type."""
import math, struct

INTW = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "isize": (64, 1), "i128": (128, 1),
        "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "usize": (64, 0), "u128": (128, 0), "bool": (1, 0)}
FL = {"f64": "d", "f32": "f", "half::f16": "e"}
NAN = "nan"


def ordn(x):
    b = struct.unpack("<q", struct.pack("<d", x))[0]
    return b if b >= 0 else -(b & 0x7FFFFFFFFFFFFFFF) - 1


def rnd(ty, x):
    """x rounded to the float type."""
    if ty == "f64" or x != x or x in (math.inf, -math.inf):
        return x
    try:
        return struct.unpack("<" + FL[ty], struct.pack("<" + FL[ty], x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fbits(ty, b):
    return struct.unpack("<" + FL[ty], struct.pack("<" + {"f64": "Q", "f32": "I", "half::f16": "H"}[ty], b))[0]


FMAX = {"f64": 1.7976931348623157e308, "f32": fbits("f32", 0x7F7FFFFF), "half::f16": 65504.0}
FTINY = {"f64": 5e-324, "f32": fbits("f32", 1), "half::f16": fbits("half::f16", 1)}


def nextf(ty, x, up):
    """Neighbour of x in the type."""
    c = {"f64": ("<d", "<Q"), "f32": ("<f", "<I"), "half::f16": ("<e", "<H")}[ty]
    if x == 0:
        return FTINY[ty] if up else -FTINY[ty]
    b = struct.unpack(c[1], struct.pack(c[0], x))[0]
    b += 1 if (x > 0) == up else -1
    return struct.unpack(c[0], struct.pack(c[1], b))[0]


CL = {}      # type -> [(name, lo, hi)] in value order (NaN not in it)
BYN = {}     # type -> {name: (lo, hi)}
ALL = {}     # type -> frozenset of names


def _mkfloat(ty):
    pts = [-3.0, -2.0, -1.5, -1.0, -0.5, -0.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0]
    out = [("-inf", -math.inf, -math.inf), ("<-3", -FMAX[ty], nextf(ty, -3.0, False))]
    for i, p in enumerate(pts):
        n = "-0" if i == 5 else ("%g" % p)
        out.append((n, p, p))
        if i + 1 < len(pts):
            q = pts[i + 1]
            if p == 0 and q == 0:
                continue
            out.append(("%g..%g" % (p, q), nextf(ty, p, True), nextf(ty, q, False)))
    out += [(">3", nextf(ty, 3.0, True), FMAX[ty]), ("inf", math.inf, math.inf)]
    return out


def _mkint(ty):
    w, s = INTW[ty]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    pts = sorted(set([x for x in (lo, -3, -2, -1, 0, 1, 2, 3, hi) if lo <= x <= hi]))
    # one value that does not survive a round trip through the next narrower float
    for p in ((1 << 24) + 1, (1 << 53) + 1):
        if p < hi:
            pts = sorted(set(pts + [p]))
    out = []
    for i, p in enumerate(pts):
        n = "min" if p == lo and p < 0 else "max" if p == hi and p > 1 else "2^24+1" if p == (1 << 24) + 1 else "2^53+1" if p == (1 << 53) + 1 else str(p)
        out.append((n, p, p))
        if i + 1 < len(pts) and pts[i + 1] > p + 1:
            out.append(("(%s,%s)" % (p, pts[i + 1]), p + 1, pts[i + 1] - 1))
    return out


for _t in FL:
    CL[_t] = _mkfloat(_t)
for _t in INTW:
    CL[_t] = _mkint(_t)
for _t, _l in CL.items():
    BYN[_t] = {n: (a, b) for n, a, b in _l}
    ALL[_t] = frozenset(BYN[_t]) | (frozenset((NAN,)) if _t in FL else frozenset())


def iv(ty, lo, hi):
    """Classes an interval meets."""
    if ty in FL:
        a, b = ordn(lo), ordn(hi)
        return frozenset(n for n, x, y in CL[ty] if ordn(y) >= a and ordn(x) <= b)
    return frozenset(n for n, x, y in CL[ty] if y >= lo and x <= hi)


def of(ty, v):
    """Class of one value."""
    if ty in FL:
        if v != v:
            return NAN
        return next(iter(iv(ty, v, v)))
    w, s = INTW[ty]
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return next(iter(iv(ty, v, v)))


def singles(ty, cs):
    """The constants a class set stands for, or None if some class is an interval."""
    out = []
    for c in cs:
        if c == NAN:
            return None
        a, b = BYN[ty][c]
        if a != b:
            return None
        out.append(a)
    return frozenset(out)


# ------------------------------------------------------------------ integers
def _wrapiv(ty, lo, hi):
    """Classes of the wrapped interval, and the possible overflow flags."""
    w, s = INTW[ty]
    tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if tlo <= lo and hi <= thi:
        return iv(ty, lo, hi), frozenset((0,))
    ov = frozenset((1,)) if hi < tlo or lo > thi else frozenset((0, 1))
    if hi - lo >= (1 << w) - 1:
        return ALL[ty], ov
    m = 1 << w

    def wr(x):
        x &= m - 1
        return x - m if s and x >> (w - 1) else x
    a, b = wr(lo), wr(hi)
    if a <= b:
        return iv(ty, a, b), ov
    return iv(ty, a, thi) | iv(ty, tlo, b), ov


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _ibin(ty, op, ca, cb):
    (al, ah), (bl, bh) = BYN[ty][ca], BYN[ty][cb]
    w, s = INTW[ty]
    tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    Z = frozenset((0,))
    if op == "Add":
        return _wrapiv(ty, al + bl, ah + bh)
    if op == "Sub":
        return _wrapiv(ty, al - bh, ah - bl)
    if op == "Mul":
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return _wrapiv(ty, min(c), max(c))
    if op == "Div":
        if bl == bh == 0:
            return frozenset(), Z
        c = [_tdiv(x, y) for x in (al, ah) for y in (bl, bh)]
        return _wrapiv(ty, min(c), max(c))
    if op == "Rem":
        if bl == bh == 0:
            return frozenset(), Z
        if al == ah and bl == bh:
            return _wrapiv(ty, al - _tdiv(al, bl) * bl, al - _tdiv(al, bl) * bl)
        mb = min(abs(bl), abs(bh))
        Mb = max(abs(bl), abs(bh))
        Ma = max(abs(al), abs(ah))
        if Ma < mb:
            return iv(ty, al, ah), Z
        m = min(Ma, Mb - 1)
        return (iv(ty, 0, m) if al >= 0 else iv(ty, -m, 0)), Z
    if op in ("BitAnd", "BitOr", "BitXor"):
        if al == ah and bl == bh:
            r = al & bl if op == "BitAnd" else al | bl if op == "BitOr" else al ^ bl
            return _wrapiv(ty, r, r)
        if al >= 0 and bl >= 0:
            if op == "BitAnd":
                return iv(ty, 0, min(ah, bh)), Z
            top = (1 << max(ah.bit_length(), bh.bit_length())) - 1
            return iv(ty, max(al, bl) if op == "BitOr" else 0, min(top, thi)), Z
        for (xl, xh), (yl, yh) in (((al, ah), (bl, bh)), ((bl, bh), (al, ah))):
            if xl == xh == 0:
                return (iv(ty, 0, 0) if op == "BitAnd" else iv(ty, yl, yh)), Z
            if xl == xh == -1:
                return (iv(ty, yl, yh) if op == "BitAnd" else iv(ty, -1, -1) if op == "BitOr" else iv(ty, ~yh, ~yl)), Z
        if op == "BitAnd" and (al >= 0 or bl >= 0):
            return iv(ty, 0, ah if al >= 0 else bh), Z
        return ALL[ty], Z
    if op in ("Shl", "Shr"):
        bad = frozenset((1,)) if bl >= w or bh < 0 else Z if 0 <= bl and bh < w else frozenset((0, 1))
        if bl == bh:
            k = bl % w
            if op == "Shl":
                r, _ = _wrapiv(ty, al << k, ah << k)
                return r, bad
            return iv(ty, al >> k, ah >> k), bad
        if op == "Shr":
            return (iv(ty, 0, ah) if al >= 0 else iv(ty, al, -1)), bad
        return ALL[ty], bad
    return ALL[ty], frozenset((0, 1))


# ------------------------------------------------------------------ floats
def _hull(ty, vals):
    out = frozenset((NAN,)) if any(v != v for v in vals) else frozenset()
    vs = [rnd(ty, v) for v in vals if v == v]
    if vs:
        a = min(vs, key=ordn)
        b = max(vs, key=ordn)
        out |= iv(ty, a, b)
    return out


EXACT = {"floor", "ceil", "trunc", "round", "round_ties_even", "sqrt", "abs"}


def _loose(ty, vals):
    """Hull of the extreme results of a library function that is not correctly rounded: two units either way."""
    out = []
    for v in vals:
        if v == v and v and math.isfinite(v):
            v = rnd(ty, v)
            if v and math.isfinite(v):
                a = b = v
                for _ in range(2):
                    a = nextf(ty, a, False) if a and math.isfinite(a) else a
                    b = nextf(ty, b, True) if b and math.isfinite(b) else b
                out += [a, b]
        out.append(v)
    return _hull(ty, out)


def _fop(op, a, b):
    try:
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            return a * b
        if op == "Div":
            if b == 0:
                if a == 0 or a != a:
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1.0, b)
            return a / b
        if op == "Rem":
            if b == 0 or a in (math.inf, -math.inf) or a != a or b != b:
                return math.nan
            return math.fmod(a, b)
    except OverflowError:
        return math.inf
    raise KeyError(op)


def _fbin(ty, op, ca, cb):
    if ca == NAN or cb == NAN:
        return frozenset((NAN,))
    (al, ah), (bl, bh) = BYN[ty][ca], BYN[ty][cb]
    if op in ("Add", "Sub", "Mul", "Div") or (al == ah and bl == bh and op == "Rem"):
        r = _hull(ty, [_fop(op, x, y) for x in (al, ah) for y in (bl, bh)])
        return r
    if op == "Rem":
        if bl == bh == 0 or math.isinf(al):
            return frozenset((NAN,))
        mb, Mb, Ma = min(abs(bl), abs(bh)), max(abs(bl), abs(bh)), max(abs(al), abs(ah))
        if Ma < mb:
            return iv(ty, al, ah)
        m = min(Ma, Mb)
        if m == Mb and not math.isinf(m) and m > 0:
            m = nextf(ty, m, False)
        return iv(ty, 0.0, m) if al > 0 or (al == 0 and math.copysign(1, al) > 0) else iv(ty, -m, -0.0)
    return ALL[ty]


_memo = {}


def binop(ty, op, A, B, same=False):
    """(classes of the result, possible overflow flags) of op over class sets."""
    k = (ty, op, A, B)
    r = _memo.get(k)
    if r is not None:
        return r
    out, ov = frozenset(), frozenset()
    for a in A:
        for b in B:
            kk = (ty, op, a, b)
            x = _memo.get(kk)
            if x is None:
                if ty in FL:
                    x = (_fbin(ty, op, a, b), frozenset((0,)))
                else:
                    x = _ibin(ty, op, a, b)
                _memo[kk] = x
            out |= x[0]
            ov |= x[1]
    r = _memo[k] = (out, ov)
    return r


def _cmp1(ty, op, a, b, same):
    if a == NAN or b == NAN:
        if same and a != b:
            return frozenset()
        return frozenset((1 if op == "Ne" else 0,))
    if same:
        if a != b:
            return frozenset()
        return frozenset((1 if op in ("Eq", "Le", "Ge") else 0,))
    (al, ah), (bl, bh) = BYN[ty][a], BYN[ty][b]
    if op == "Gt":
        return _cmp1(ty, "Lt", b, a, False)
    if op == "Ge":
        return _cmp1(ty, "Le", b, a, False)
    if op == "Lt":
        return frozenset((1,)) if ah < bl else frozenset((0,)) if al >= bh else frozenset((0, 1))
    if op == "Le":
        return frozenset((1,)) if ah <= bl else frozenset((0,)) if al > bh else frozenset((0, 1))
    eq = frozenset((1,)) if al == ah == bl == bh else frozenset((0,)) if ah < bl or bh < al else frozenset((0, 1))
    return eq if op == "Eq" else frozenset(1 - x for x in eq)


def compare(ty, op, A, B, same=False):
    k = (ty, op, A, B, same, "c")
    r = _memo.get(k)
    if r is None:
        r = frozenset()
        for a in A:
            for b in B:
                r |= _cmp1(ty, op, a, b, same)
        _memo[k] = r
    return r


def neg(ty, A):
    out = frozenset()
    for a in A:
        if a == NAN:
            out |= frozenset((NAN,))
        elif ty in FL:
            lo, hi = BYN[ty][a]
            out |= iv(ty, -hi, -lo)
        else:
            lo, hi = BYN[ty][a]
            out |= _wrapiv(ty, -hi, -lo)[0]
    return out


def bitnot(ty, A):
    out = frozenset()
    for a in A:
        lo, hi = BYN[ty][a]
        out |= _wrapiv(ty, ~hi, ~lo)[0]
    return out


def cast(frm, to, A):
    """`as` conversion."""
    k = (frm, to, A, "as")
    r = _memo.get(k)
    if r is not None:
        return r
    out = frozenset()
    for a in A:
        if frm in FL:
            if to in FL:
                if a == NAN:
                    out |= frozenset((NAN,))
                else:
                    lo, hi = BYN[frm][a]
                    out |= iv(to, rnd(to, lo), rnd(to, hi))
            elif to in INTW:
                w, s = INTW[to]
                tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

                def sat(x):
                    if math.isinf(x):
                        return thi if x > 0 else tlo
                    return max(tlo, min(thi, int(x)))
                if a == NAN:
                    out |= iv(to, 0, 0)
                else:
                    lo, hi = BYN[frm][a]
                    out |= iv(to, sat(lo), sat(hi))
            else:
                return None
        elif frm in INTW:
            lo, hi = BYN[frm][a]
            if to in FL:
                out |= iv(to, tofl(to, lo), tofl(to, hi))
            elif to in INTW:
                out |= _wrapiv(to, lo, hi)[0]
            else:
                return None
        else:
            return None
    _memo[k] = out
    return out


def tofl(ty, n):
    """Integer to float, round to nearest even in one step."""
    if ty == "f64":
        return float(n)
    p = {"f32": 24, "half::f16": 11}[ty]
    a = abs(n)
    e = a.bit_length() - p
    if e > 0:
        q, r = a >> e, a & ((1 << e) - 1)
        h = 1 << (e - 1)
        if r > h or (r == h and q & 1):
            q += 1
        a = q << e
    v = math.inf if a > FMAX[ty] else float(a)
    return math.copysign(v, n) if n else 0.0


# ------------------------------------------------------------------ math functions
def _safe(f):
    def g(*x):
        try:
            return f(*x)
        except OverflowError:
            return math.inf
        except (ValueError, ZeroDivisionError):
            return math.nan
    return g


def _log(f):
    def g(x):
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
        return f(x)
    return g


def _round(x):
    """Half away from zero."""
    if math.isinf(x):
        return x
    f = math.floor(abs(x))
    r = f + 1 if abs(x) - f >= 0.5 else f
    return math.copysign(float(r), x)


def _rte(x):
    if math.isinf(x):
        return x
    return math.copysign(float(round(x)), x)


def _int(f):
    def g(x):
        return x if math.isinf(x) else math.copysign(float(f(x)), x)
    return g


def _sinh(x):
    try:
        return math.sinh(x)
    except OverflowError:
        return math.copysign(math.inf, x)


MONO = {"exp": _safe(math.exp), "exp2": _safe(lambda x: math.exp2(x)), "exp_m1": _safe(math.expm1), "ln": _log(math.log), "log2": _log(math.log2), "log10": _log(math.log10),
        "ln_1p": lambda x: -math.inf if x == -1 else math.nan if x < -1 else math.log1p(x),
        "sqrt": lambda x: math.nan if x < 0 else math.sqrt(x), "cbrt": lambda x: math.cbrt(x), "sinh": _sinh, "tanh": math.tanh, "asinh": math.asinh,
        "atan": math.atan, "acosh": lambda x: math.nan if x < 1 else math.acosh(x), "asin": lambda x: math.nan if abs(x) > 1 else math.asin(x),
        "acos": lambda x: math.nan if abs(x) > 1 else math.acos(x),
        "atanh": lambda x: math.nan if abs(x) > 1 else math.copysign(math.inf, x) if abs(x) == 1 else math.atanh(x),
        "floor": _int(math.floor), "ceil": _int(math.ceil), "trunc": _int(math.trunc), "round": _round, "round_ties_even": _rte,
        "to_degrees": lambda x: x * (180.0 / math.pi), "to_radians": lambda x: x * (math.pi / 180.0)}
EVENF = {"cosh": _safe(math.cosh), "abs": abs}       # monotone on each side of zero


def _m1(ty, name, a):
    if name in ("is_nan", "is_infinite", "is_finite", "is_sign_negative", "is_sign_positive"):
        if name == "is_nan":
            return frozenset((int(a == NAN),))
        if name == "is_infinite":
            return frozenset((int(a in ("inf", "-inf")),))
        if name == "is_finite":
            return frozenset((int(a not in ("inf", "-inf", NAN)),))
        if a == NAN:
            return frozenset((0, 1))
        neg_ = ordn(BYN[ty][a][0]) < 0
        return frozenset((int(neg_ == (name == "is_sign_negative")),))
    if a == NAN:
        return frozenset((NAN,))
    lo, hi = BYN[ty][a]
    if name in ("sin", "cos", "tan"):
        if math.isinf(lo):
            return frozenset((NAN,))
        if lo == hi:
            return _hull(ty, [getattr(math, name)(lo)])
        if hi <= 1.5 and lo >= -1.5:     # within the monotone range, cos on one side of zero
            return _loose(ty, [getattr(math, name)(x) for x in (lo, hi)])
        return iv(ty, -1.0, 1.0) if name != "tan" else ALL[ty] - {NAN}
    if name == "signum":
        return iv(ty, math.copysign(1.0, lo), math.copysign(1.0, lo))
    if name == "recip":
        return _fbin(ty, "Div", "1", a)
    if name == "fract":
        return iv(ty, 0.0, 0.999999) if ordn(lo) >= 0 else iv(ty, -0.999999, -0.0)
    f = MONO.get(name) or EVENF.get(name)
    if f is None:
        return None
    return (_hull if lo == hi or name in EXACT else _loose)(ty, [f(lo), f(hi)])


def _pow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return -math.inf if x < 0 and y == math.floor(y) and math.fmod(y, 2) != 0 else math.inf
    except ValueError:
        if x == 0:
            odd = y == math.floor(y) and math.fmod(y, 2) != 0
            return math.copysign(math.inf, x) if odd else math.inf
        return math.nan


def _m2(ty, name, a, b):
    if name in ("max", "min", "maximum", "minimum"):
        if a == NAN or b == NAN:
            if name in ("maximum", "minimum"):
                return frozenset((NAN,))
            return frozenset((b if a == NAN else a,))
        (al, ah), (bl, bh) = BYN[ty][a], BYN[ty][b]
        m = max if name.startswith("max") else min
        r = _hull(ty, [m(al, bl, key=ordn), m(ah, bh, key=ordn)])
        if al == 0 and bl == 0:
            r = frozenset((a, b)) if name in ("max", "min") else r
        return r
    if name == "copysign":
        ng = frozenset((0, 1)) if b == NAN else frozenset((int(ordn(BYN[ty][b][0]) < 0),))
        if a == NAN:
            return frozenset((NAN,))
        lo, hi = sorted((abs(BYN[ty][a][0]), abs(BYN[ty][a][1])))
        out = frozenset()
        for n in ng:
            out |= iv(ty, -hi, -lo) if n else iv(ty, lo, hi)
        return out
    if name == "powf":
        if a == "1" or b in ("0", "-0"):
            return frozenset(("1",))
        if a == NAN or b == NAN:
            return frozenset((NAN,))
        (al, ah), (bl, bh) = BYN[ty][a], BYN[ty][b]
        if al == ah and bl == bh:
            return _hull(ty, [_pow(al, bl)])
        if ordn(al) >= 0:
            return _loose(ty, [_pow(x, y) for x in (al, ah) for y in (bl, bh)])
        if bl == bh and math.isfinite(bl):
            return _loose(ty, [_pow(x, bl) for x in (al, ah)])
        m = _loose(ty, [_pow(abs(x), y) for x in (al, ah) for y in (bl, bh)])
        if math.isinf(bl):
            return m
        out = m | neg(ty, m) if math.floor(bh) >= math.ceil(bl) else frozenset()
        if math.isinf(al) or al == 0:
            return out | m
        return out | frozenset((NAN,))
    if name == "hypot":
        if a in ("inf", "-inf") or b in ("inf", "-inf"):
            return frozenset(("inf",))
        if a == NAN or b == NAN:
            return frozenset((NAN,))
        (al, ah), (bl, bh) = BYN[ty][a], BYN[ty][b]
        x, y = sorted((abs(al), abs(ah))), sorted((abs(bl), abs(bh)))
        return (_hull if al == ah and bl == bh else _loose)(ty, [math.hypot(x[0], y[0]), math.hypot(x[1], y[1])])
    if name == "atan2":
        if a == NAN or b == NAN:
            return frozenset((NAN,))
        (al, ah), (bl, bh) = BYN[ty][a], BYN[ty][b]
        return (_hull if al == ah and bl == bh else _loose)(ty, [math.atan2(x, y) for x in (al, ah) for y in (bl, bh)])
    if name == "rem_euclid":
        r = _fbin(ty, "Rem", a, b)
        if NAN in r:
            return r
        lo, hi = BYN[ty][b]
        return iv(ty, -0.0, max(abs(lo), abs(hi)))
    if name == "div_euclid":
        return ALL[ty]
    return None


def math1(ty, name, A):
    """Classes (or 0/1 for predicates) of a one-argument float method, None if not modelled."""
    k = (ty, name, A, "m1")
    r = _memo.get(k, 0)
    if r == 0:
        r = frozenset()
        for a in A:
            x = _m1(ty, name, a)
            if x is None:
                r = None
                break
            r |= x
        _memo[k] = r
    return r


def math2(ty, name, A, B):
    k = (ty, name, A, B, "m2")
    r = _memo.get(k, 0)
    if r == 0:
        r = frozenset()
        for a in A:
            for b in B:
                x = _m2(ty, name, a, b)
                if x is None:
                    r = None
                    break
                r |= x
            if r is None:
                break
        _memo[k] = r
    return r


def _irem_e(a, b):
    r = a - _tdiv(a, b) * b
    return r + abs(b) if r < 0 else r


def imath2(ty, name, A, B, bty=None):
    """Integer methods with two arguments; (classes, may panic) or None."""
    out, pan = frozenset(), False
    bty = bty or ty
    for a in A:
        for b in B:
            (al, ah), (bl, bh) = BYN[ty][a], BYN[bty][b]
            one = al == ah and bl == bh
            if name in ("div_euclid", "rem_euclid", "wrapping_div", "wrapping_rem", "wrapping_div_euclid", "wrapping_rem_euclid"):
                if bl <= 0 <= bh:
                    pan = True
                    if bl == bh == 0:
                        continue
                w, s = INTW[ty]
                tlo = -(1 << (w - 1)) if s else 0
                if not name.startswith("wrapping") and s and al == tlo and bl <= -1 <= bh:
                    pan = True
                    if one:
                        continue
                if name in ("wrapping_div",):
                    out |= _ibin(ty, "Div", a, b)[0]
                elif name == "wrapping_rem":
                    out |= _ibin(ty, "Rem", a, b)[0]
                elif "rem" in name:
                    if one:
                        r = _irem_e(al, bl)
                        out |= iv(ty, r, r)
                    else:
                        out |= iv(ty, 0, max(abs(bl), abs(bh)) - 1)
                else:
                    def de(x, y):
                        return (x - _irem_e(x, y)) // y
                    c = [de(x, y) for x in (al, ah) for y in (bl, bh) if y]
                    out |= _wrapiv(ty, min(c), max(c))[0]
            elif name in ("wrapping_shl", "wrapping_shr"):
                out |= _shift(ty, name, a, bl, bh)
            elif name in ("pow", "wrapping_pow"):
                if one and 0 <= bl <= 64:
                    r, ov = _wrapiv(ty, al ** bl, al ** bl)
                    if name == "pow" and 1 in ov:
                        pan = True
                        continue
                    out |= r
                elif bl == bh and 0 <= bl <= 3 and (al >= 0 or ah <= 0):
                    c = sorted((al ** bl, ah ** bl))
                    r, ov = _wrapiv(ty, c[0], c[1])
                    pan = pan or (name == "pow" and 1 in ov)
                    out |= r
                elif al == ah and al in (0, 1):
                    out |= iv(ty, al, al) if bl > 0 or al == 1 else ALL[ty]
                else:
                    pan = pan or name == "pow"
                    out |= ALL[ty]
            else:
                return None
    return out, pan


def _shift(ty, name, a, bl, bh):
    w = INTW[ty][0]
    al, ah = BYN[ty][a]
    if bl == bh:
        k = bl % w
        if name == "wrapping_shl":
            return _wrapiv(ty, al << k, ah << k)[0]
        return iv(ty, al >> k, ah >> k)
    return ALL[ty] if name == "wrapping_shl" else (iv(ty, 0, ah) if al >= 0 else iv(ty, al, -1))


def reps(ty, c, n=3):
    """Sample values of a class, its bounds first (for building the NumPy table)."""
    if c == NAN:
        return [math.nan]
    lo, hi = BYN[ty][c]
    if lo == hi:
        return [lo]
    if ty in FL:
        mids = [rnd(ty, lo + (hi - lo) * t) for t in (0.25, 0.5, 0.7)] if abs(hi) < 1e4 and abs(lo) < 1e4 else [math.copysign(x, lo) for x in (4.0, 5.5, 100.0)]
        if lo == FTINY[ty] or hi == -FTINY[ty]:
            mids = [math.copysign(x, lo) for x in (0.25, 0.375, 0.0625)]
        return [lo, hi] + mids[:n]
    mids = [x for x in (lo + (hi - lo) // 3, lo + (hi - lo) // 2, 4, 5, 7, 10, 100, -4, -5, -7, -100) if lo < x < hi]
    return [lo, hi] + mids[:n + 3]
