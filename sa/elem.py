"""What is stored into result arrays, as a function of the elements loaded from the input arrays."""
from interp import *
from arrays import *
from models import cparts, CPX

SCALAR = set("f32 f64 i8 i16 i32 i64 u8 u16 u32 u64 usize isize i128 u128 bool half::f16 num_complex::Complex<f32> num_complex::Complex<f64> (f64, f64) (f32, f32)".split())


def root(p):
    """Name of the symbolic array a pointer leads into, 'self' results etc. as None."""
    for s in p.syms():
        if s.k == "u" and len(s.a) == 2 and s.a[1] == "buffer":
            return s.a[0]
    return None


def isdata(v):
    return any(s.k == "u" and len(s.a) == 2 and s.a[1] == "buffer" for s in v.syms())


def scalar_inst(inst):
    if inst["argc"] == 0:
        return False
    for i in range(inst["argc"] + 1):
        t = inst["locals"][i][0]
        if t not in SCALAR and not (i == 1 and inst.get("closure")):
            return False
    return True


class Elem(Observer):
    """Scalar functions of loaded data stay uninterpreted; stores of data are recorded."""

    def __init__(self, D):
        self.D = D
        self.stores = []      # (address, projections, type or None, value, function)
        self.panics = []
        self.loads = []
        self.quiet = 0

    def on_invoke(self, it, fr, st, inst, args, span):
        p = inst["path"]
        if fr is not None and p in ("rumpy::array::RumpyArray::astype", "rumpy::array::RumpyArray::copy"):
            a = it.resolve(st, args[0])
            v = it.pointee(st, a) if a.k == "R" else None
            if v is not None and v.k == "A" and v.a[0] == ARR and v.a[2][0].k == "u":
                nm = v.a[2][0].a[0]
                if p.endswith("copy"):
                    return mk("A", ARR, 0, (mk("u", nm + "@copy", "buffer"), K(0), v.a[2][2], mk("u", nm + "@copy", "strides"), v.a[2][4], mk("u", nm + "@copy", "flags")))
                dn = self.D.kind_of(args[1], st.heap, st.facts)
                if dn and not dn.startswith(("one", "undet")):
                    nm = nm + "@" + dn
                    return mk("A", ARR, 0, (mk("u", nm, "buffer"), K(0), v.a[2][2], mk("u", nm, "strides"), self.D.val[dn], mk("u", nm, "flags")))
        if scalar_inst(inst) and any(isdata(a) for a in args):
            return T("sfn", inst["id"], *args)
        return None

    def on_store(self, it, fr, st, ptr, ty, val, span):
        self.stores.append((ptr, (), ty, val, fr.path, span))

    def on_write(self, it, fr, st, obj, projs, val, span):
        if obj[0] == "D":
            self.stores.append((obj[1], projs, None, val, fr.path, span))

    def on_panic(self, it, fr, st, path, span):
        self.panics.append((path, fr.path, span))
