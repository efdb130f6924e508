"""Builds sa/oracle/values.json.gz: NumPy's results per value class.  Run once with python3-vt; no check runs it."""
import sys, os, json, gzip, itertools, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import numpy as np
import classes as C
warnings.simplefilter("ignore")
np.seterr(all="ignore")
RUST = {"bool": "bool", "int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64", "uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64",
        "float16": "half::f16", "float32": "f32", "float64": "f64"}
CPX = {"complex64": ("float32", "f32"), "complex128": ("float64", "f64")}
CSPECIAL = [("nan", "0"), ("0", "nan"), ("nan", "nan"), ("inf", "0"), ("0", "-inf")]
CFIN = [(a, b) for a in ("-1.5", "0", "1", "2") for b in ("-1.5", "0", "1", "2")]
MIX = {"b": ["0", "1"], "i": ["min", "-3", "-1", "0", "1", "3", "2^24+1", "2^53+1", "max"], "u": ["0", "1", "3", "2^24+1", "2^53+1", "max"],
       "f": ["nan", "-inf", "-3", "-0.5", "-0", "0", "0.5", "1", "1.5", "2", "3", "inf"]}


def elems(dt, quick=False):
    """[(class key, numpy scalar)]"""
    out = []
    if dt in CPX:
        for re, im in (CFIN if quick else CFIN + CSPECIAL):
            t = CPX[dt][1]
            z = np.array([complex(0)], dtype=dt)
            z.real = C.reps(t, re)[0]
            z.imag = C.reps(t, im)[0]
            out.append((re + "+" + im + "j", z[0]))
        return out
    ty = RUST[dt]
    names = [n for n, lo, hi in C.CL[ty]] + (["nan"] if ty in C.FL else [])
    if quick:
        names = [n for n in MIX["b" if dt == "bool" else dt[0]] if n in names]
    for n in names:
        for v in C.reps(ty, n):
            out.append((n, np.array([v], dtype=dt)[0]))
    return out


def cls(x):
    """Class key of a numpy scalar."""
    dt = str(x.dtype)
    if dt in CPX:
        t = CPX[dt][1]
        return C.of(t, float(x.real)) + "+" + C.of(t, float(x.imag)) + "j"
    ty = RUST[dt]
    return C.of(ty, float(x)) if ty in C.FL else C.of(ty, int(x))


_cache = {}
def clsm(x):
    k = (str(x.dtype), x.tobytes())
    r = _cache.get(k)
    if r is None:
        r = _cache[k] = cls(x)
    return r


def table(f, cols):
    arrs = [np.array([v for _, v in c]) for c in cols]
    n = [len(a) for a in arrs]
    if len(cols) == 2:
        A, B = np.repeat(arrs[0], n[1]), np.tile(arrs[1], n[0])
        keys = ["%s|%s" % (a, b) for a, _ in cols[0] for b, _ in cols[1]]
        try:
            R = f(A, B)
        except (TypeError, ValueError):
            return None
    else:
        keys = [a for a, _ in cols[0]]
        try:
            R = f(arrs[0])
        except (TypeError, ValueError):
            return None
    if R.dtype == object:
        return None
    out = {}
    for k, r in zip(keys, R):
        out.setdefault(k, set()).add(clsm(r))
    return {"dt": str(R.dtype), "t": {k: " ".join(sorted(s)) for k, s in out.items()}}


def ipow(a, b):
    if b.dtype.kind == "i":
        m = b < 0
        # NumPy refuses negative exponents; leave those classes out
        r = np.power(a, np.where(m, 0, b).astype(b.dtype))
        return r
    return np.power(a, b)


def fdiv(a, b):
    # floats: the rounded-down quotient (rumpy's documented reading; NumPy corrects the last unit)
    if np.result_type(a, b).kind == "f":
        return np.floor(np.true_divide(a.astype(np.result_type(a, b)), b.astype(np.result_type(a, b))))
    return np.floor_divide(a, b)


BIN = {"Add": np.add, "Sub": np.subtract, "Mul": np.multiply, "Div": np.true_divide, "Pow": np.power, "Mod": np.fmod, "FloorDiv": fdiv,
       "Maximum": np.maximum, "Minimum": np.minimum, "Arctan2": np.arctan2, "Hypot": np.hypot, "FMax": np.fmax, "FMin": np.fmin, "Copysign": np.copysign,
       "Logaddexp": np.logaddexp, "Logaddexp2": np.logaddexp2, "Nextafter": np.nextafter}
CMP = {"Gt": np.greater, "Lt": np.less, "Ge": np.greater_equal, "Le": np.less_equal, "Eq": np.equal, "Ne": np.not_equal}
LOG = {"logical_and": np.logical_and, "logical_or": np.logical_or, "logical_xor": np.logical_xor}
BIT = {"bitwise_and": np.bitwise_and, "bitwise_or": np.bitwise_or, "bitwise_xor": np.bitwise_xor, "left_shift": np.left_shift, "right_shift": np.right_shift}
UN = dict(Neg="negative", Abs="absolute", Square="square", Sqrt="sqrt", Exp="exp", Log="log", Log10="log10", Log2="log2", Sin="sin", Cos="cos", Tan="tan", Floor="floor", Ceil="ceil",
          Sinh="sinh", Cosh="cosh", Tanh="tanh", Arcsin="arcsin", Arccos="arccos", Arctan="arctan", Sign="sign", Positive="positive", Reciprocal="reciprocal", Exp2="exp2", Expm1="expm1",
          Log1p="log1p", Cbrt="cbrt", Trunc="trunc", Rint="rint", Arcsinh="arcsinh", Arccosh="arccosh", Arctanh="arctanh", Isnan="isnan", Isinf="isinf", Isfinite="isfinite", Signbit="signbit",
          Isneginf="isneginf", Isposinf="isposinf", Isreal="isreal", Iscomplex="iscomplex")
UN1 = {"logical_not": np.logical_not, "bitwise_not": np.invert}
ALLD = list(RUST) + list(CPX)
out = {"bin": {}, "cmp": {}, "log": {}, "bit": {}, "un": {}, "un1": {}, "cast": {}}
for sec, ops in (("bin", BIN), ("cmp", CMP), ("log", LOG), ("bit", BIT)):
    for op, f in ops.items():
        for a in ALLD:
            for b in ALLD:
                mixed = a != b
                g = f
                if op == "Pow" and np.dtype(a).kind in "iub" and np.dtype(b).kind in "iub":
                    g = ipow
                ca, cb = elems(a, mixed), elems(b, mixed)
                if op == "Div" and (a in CPX or b in CPX):
                    ca, cb = elems(a, True), elems(b, True)
                if op == "Pow" and g is ipow:
                    cb = [(n, v) for n, v in cb if v >= 0]
                t = table(g, [ca, cb])
                if t:
                    out[sec].setdefault(op, {})[a + "," + b] = t
for op, n in UN.items():
    for a in ALLD:
        t = table(getattr(np, n), [elems(a)])
        if t:
            out["un"].setdefault(op, {})[a] = t
for op, f in UN1.items():
    for a in ALLD:
        t = table(f, [elems(a)])
        if t:
            out["un1"].setdefault(op, {})[a] = t
for a in ALLD:
    for b in ALLD:
        el = elems(a)
        if np.dtype(a).kind in "fc" and np.dtype(b).kind in "iu":
            i = np.iinfo(b)
            # outside the target's range NumPy's result is undefined
            el = [(n, v) for n, v in el if np.isfinite(v) and i.min <= float(v.real) <= float(i.max) and int(v.real) <= i.max]
            full = {n: 0 for n, _ in elems(a)}
            ok = {}
            for n, v in el:
                ok[n] = ok.get(n, 0) + 1
            tot = {}
            for n, v in elems(a):
                tot[n] = tot.get(n, 0) + 1
            el = [(n, v) for n, v in el if ok[n] == tot[n]]
        t = table(lambda x: x.astype(b), [el])
        if t:
            out["cast"].setdefault(a, {})[b] = t
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa", "oracle", "values.json.gz")
with gzip.GzipFile(p, "wb", mtime=0) as f:
    f.write(json.dumps(out, separators=(",", ":"), sort_keys=True).encode())
print(os.path.getsize(p), {s: sum(len(x) for x in v.values()) for s, v in out.items()})
