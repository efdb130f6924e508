"""Symbolic arrays and dtypes for the analyses."""
from interp import *

ARR = "rumpy::array::RumpyArray"
DTY = "rumpy::array::dtype::DType"
KIND = "rumpy::array::dtype::DTypeKind"
UNITS = ["Nanoseconds", "Microseconds", "Milliseconds", "Seconds", "Minutes", "Hours", "Days"]
NUMERIC = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128"]
# The Rust type each numeric dtype stores, and its NumPy typestr: NumPy's own table.
RUST = {"bool": "u8", "int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64", "uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64",
        "float16": "half::f16", "float32": "f32", "float64": "f64", "complex64": "num_complex::Complex<f32>", "complex128": "num_complex::Complex<f64>"}


def X(i):
    return mk("R", ("X", i), (), 0)


class Dtypes:
    """The dtype values the crate's own constructors build."""

    def __init__(self, prog):
        self.p = prog
        self.heap = {}
        self.val = {}
        self.kinds = [v[0] for v in prog.adts[KIND].variants]
        self.kindfn = prog.one(DTY + "::kind")
        k = prog.adts[KIND]
        ua = None
        for n, d, fs in k.variants:
            if n == "DateTime64":
                ua = fs[0][1]
        self.unit_adt = ua
        self.units = [v[0] for v in prog.adts[ua].variants]
        self.canon = {}      # name -> kind value
        for n, d, fs in k.variants:
            i = k.by_name[n]
            if not fs:
                self.add(n.lower(), n.lower(), (), mk("A", KIND, i, ()))
            elif fs[0][1] == ua:
                for j, u in enumerate(self.units):
                    uv = mk("A", ua, j, ())
                    self.add("%s[%s]" % (n.lower(), u), n.lower(), (uv,), mk("A", KIND, i, (uv,)))
            else:
                for size in (0, 1, 3, 17):
                    self.add("%s[%d]" % (n.lower(), size), n.lower() + "_", (K(size),), mk("A", KIND, i, (K(size),)))

    def add(self, name, ctor, args, kv):
        it = Interp(self.p)
        r = it.run(self.p.one(DTY + "::" + ctor), list(args))
        if r is None:
            raise AnchorError("no dtype value for kind " + name)
        st, v = r
        self.canon[name] = kv
        self.val[name] = self.adopt(name, st, v)

    def adopt(self, name, st, v):
        """Keep a value built in st, with the objects it refers to, apart from others."""
        ren = {}
        for ob in st.heap:
            ren[ob] = ("DT", name, len(ren))
        for ob, w in st.heap.items():
            self.heap[ren[ob]] = _ren(w, ren)
        return _ren(v, ren)

    def kind_of(self, dt, heap=None, facts=None):
        """Name of a dtype value's kind as the crate's own kind() gives it, or a description."""
        it = Interp(self.p)
        h = dict(self.heap)
        if heap:
            h.update(heap)
        h[("X", "k")] = dt
        r = it.run(self.kindfn, [mk("R", ("X", "k"), (), 0)], heap=h, facts=facts)
        if r is None:
            return None
        return self.kindname(r[1])

    def kindname(self, v):
        if v.k == "A" and v.a[0] == KIND:
            n = self.kinds[v.a[1]].lower()
            if v.a[2]:
                x = v.a[2][0]
                if x.k == "A":
                    n += "[%s]" % self.units[x.a[1]]
                elif x.k == "k":
                    n += "[%d]" % x.a[0]
                else:
                    n += "[?]"
            return n
        if v.k == "P" and v.a[1] is not None:
            return "one of " + ", ".join(sorted(self.kindname(x) for x in v.a[1]))
        return "undetermined"


class AnchorError(Exception):
    pass


def _ren(v, ren):
    if v.k == "R" and v.a[0] in ren:
        return mk("R", ren[v.a[0]], v.a[1], v.a[2])
    if v.k == "A":
        return mk("A", v.a[0], v.a[1], tuple(_ren(x, ren) for x in v.a[2]))
    return v


def sym_array(nm, dt=None):
    return mk("A", ARR, 0, (mk("u", nm, "buffer"), mk("u", nm, "offset"), mk("u", nm, "shape"), mk("u", nm, "strides"),
                            dt if dt is not None else mk("u", nm, "dtype"), mk("u", nm, "flags")))


def field_index(prog, path, name):
    for i, (n, t) in enumerate(prog.adts[path].variants[0][2]):
        if n == name:
            return i
    raise AnchorError("%s has no field %s" % (path, name))
