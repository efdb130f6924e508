"""Interprets the array-level functions the Python layer calls, with symbolic arrays of each dtype, and records every
typed memory access with its address term."""
import sys
from interp import *
from arrays import *
from elem import root
from dt import run_arrays
from models import snap, hascl

PYARR = "rumpy::python::pyarray::PyRumpyArray"
OKTY = {d: {r} for d, r in RUST.items()}
OKTY["bool"] |= {"bool"}
OKTY["complex64"] |= {"f32"}
OKTY["complex128"] |= {"f64"}
for _u in UNITS:
    OKTY["datetime64[%s]" % _u] = OKTY["timedelta64[%s]" % _u] = {"i64"}
SCAL = set("usize isize i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool char".split())


def fnrefs(x):
    if x.__class__ is dict:
        f = x.get("fn")
        if f.__class__ is dict and f.get("id") is not None:
            yield f["id"]
        for v in x.values():
            if v.__class__ in (dict, list):
                yield from fnrefs(v)
    elif x.__class__ is list:
        for v in x:
            if v.__class__ in (dict, list):
                yield from fnrefs(v)


def is_py(p):
    return p.startswith(("rumpy::python", "<rumpy::python"))


def py_entries(prog):
    """Functions of the Python layer with array or Python-object parameters, generated glue apart."""
    out = {}
    for i in prog.insts.values():
        p = i["path"]
        if not is_py(p) or i["args"] or "__py" in p or "{closure" in p or "{impl" in p or "::_::" in p or "PyClassImplCollector" in p:
            continue
        if any(t in i["locals"][k][0] for k in range(1, i["argc"] + 1) for t in (ARR, PYARR, "pyo3::Bound")) and "PyModule" not in i["locals"][1][0]:
            out[p] = i
    return out


def entries(prog):
    """Functions outside the Python layer with array parameters (or array results) that the Python layer refers to."""
    out = {}
    for i in prog.insts.values():
        if not is_py(i["path"]):
            continue
        for c in fnrefs(i["blocks"]):
            j = prog.insts.get(c)
            if j is None or j["args"] or not j["path"].startswith("rumpy::") or is_py(j["path"]):
                continue
            if any(ARR in j["locals"][k][0] for k in range(0, j["argc"] + 1)):
                out[j["path"]] = j
    return out


def base_of(ptr):
    """(base term, [(index, scale)]) of an address."""
    ix = []
    v = ptr
    while True:
        if v.k == "t" and v.a[0] == "padd":
            ix.append((v.a[2], v.a[3].a[0] if isinstance(v.a[3], Val) else v.a[3]))
            v = v.a[1]
        elif v.k == "t" and v.a[0] == "as":
            v = v.a[1]
        elif v.k == "t" and v.a[0] == "rawslice":
            v = v.a[1]
        else:
            return v, ix


def ident(v, it=None):
    """The buffers an address may lead into: ('arr', name), ('new', object), or None for unknown."""
    out, seen = set(), set()
    work = [(v, ())]
    while work:
        x, path = work.pop()
        if (x, path) in seen:
            continue
        seen.add((x, path))
        if len(seen) > 400:
            return {None}
        if x.k == "u":
            if len(x.a) == 2 and x.a[1] == "buffer":
                out.add(("arr", x.a[0]))
                continue
            if x.a[0] == "seq":
                out.add(None)
                continue
        if x.k == "R":
            if x.a[0][0] == "D":
                work.append((x.a[0][1], path))
            else:
                out.add(("new", x.a[0]))
            continue
        if x.k == "A":
            if path and path[-1] < len(x.a[2]):
                work.append((x.a[2][path[-1]], path[:-1]))
            elif x.a[0] == ARR:
                work.append((x.a[2][0], ()))
            elif x.a[0] == PYARR:
                work.append((x.a[2][0], ()))
            else:
                out |= bufs_in(x) or {None}
            continue
        if x.k == "t":
            op = x.a[0]
            if op == "buf":
                out.add(("new", x))
            elif op == "f":
                work.append((x.a[1], path + (x.a[2].a[0] if x.a[2].__class__ is Val else x.a[2],)))
            elif op == "vf":
                work.append((x.a[1], path + (x.a[3].a[0] if x.a[3].__class__ is Val else x.a[3],)))
            elif op == "*":
                work.append((x.a[1], ()))
            elif op in ("&", "as", "padd", "rawslice", "vslice", "vptr"):
                work.append((x.a[1], path))
            elif op == "call" and x.a[1].rsplit("::", 1)[-1] in ("as_ptr", "as_mut_ptr", "deref", "deref_mut", "as_slice", "as_mut_slice"):
                work.append((x.a[3], path))
            elif op == "idx" and it is not None and it.deps.get(x.a[1]):
                ds = [y for y in it.deps[x.a[1]] if y.k == "A" and y.a[0] in (ARR, PYARR)]
                if ds:
                    work += [(y, path) for y in ds]
                else:
                    out.add(None)
            else:
                out.add(None)
            continue
        if x.k == "P" and x.a[1]:
            work += [(y, path) for y in x.a[1]]
        elif x.k == "P" and it is not None and it.deps.get(x):
            work += [(y, path) for y in it.deps[x]]
        else:
            out.add(None)
    return out


def bufs_in(v, lim=60):
    out, work, seen = set(), [v], set()
    while work and len(seen) < lim:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "t" and x.a[0] == "buf":
            out.add(("new", x))
            continue
        for y in x.a:
            if isinstance(y, Val):
                work.append(y)
            elif isinstance(y, (tuple, frozenset)):
                work += [z for z in y if isinstance(z, Val)]
    return out


class Sweep(Observer):
    """dts: dtype of the first, second, ... symbolic array (the last for all further ones)."""

    seqs = True

    def __init__(self, D, dts):
        self.D = D
        self.dts = dts
        self.loose = set()   # accesses on paths that suppose something of an undetermined dtype
        self.acc = []        # (kind, type, ptr, value, function, span, contiguity facts)
        self.bufs = {}       # buffer -> dtype names
        self.names = {}      # array name -> dtype name
        self.arrs = []
        self.n = 0
        self.invoked = set() # functions of the crate called from the Python layer, with the dtypes of their array arguments

    # -- symbolic values by type
    def array(self, nm):
        d = self.dts[min(len(self.names), len(self.dts) - 1)]
        d = self.names.setdefault(nm, d)
        return sym_array(nm, self.D.val[d] if d else mk("u", nm, "dtype"))

    def sym(self, heap, t, nm, enums):
        if t == ARR:
            return self.array(nm)
        if t == PYARR:
            return mk("A", PYARR, 0, (self.array(nm),))
        if t.lstrip("&").startswith("pyo3::Bound<"):
            return mk("u", "arg", nm)
        for pre in ("&mut ", "&", "pyo3::PyRef<'_, ", "pyo3::PyRefMut<'_, "):
            if t.startswith(pre) and (ARR in t or PYARR in t):
                inner = t[len(pre):] if pre[0] == "&" else t[len(pre):-1]
                v = self.sym(heap, inner, nm, enums)
                if v is None:
                    return None
                o = ("X", nm, len(t))
                heap[o] = v
                return mk("R", o, (), 1 if "mut" in pre or "Mut" in pre else 0)
        if t.startswith("std::option::Option<"):
            x = self.sym(heap, t[20:-1], nm, enums)
            return x and mk("P", ("arg", nm), frozenset((some(x), NONE)))
        if t.startswith("std::result::Result<"):
            x = self.sym(heap, first(t[20:-1]), nm, enums)
            return x and mk("P", ("arg", nm), frozenset((mk("A", RES, 0, (x,)), mk("A", RES, 1, (mk("u", "err", nm),)))))
        for pre, cut in (("std::vec::Vec<", -1), ("[", -1)):
            if t.startswith(pre) and (ARR in t or PYARR in t):
                x = self.sym(heap, first(t[len(pre):cut]), nm, enums)
                return x and mk("u", "seq", nm, x)
        if t in enums:
            ad = enums[t]
            return mk("P", ("arg", nm), frozenset(mk("A", t, i, ()) for i in range(len(ad.variants))))
        if t == DTY:
            return self.D.val[self.dts[-1]]
        if t == "&" + DTY:
            o = ("X", nm, "dt")
            heap[o] = self.D.val[self.dts[-1]]
            return mk("R", o, (), 0)
        if ARR in t or PYARR in t:
            return None
        return mk("u", "arg", nm)

    def ret_ext(self, it, fr, st, path, args, site, retty):
        if "pyo3" not in path or any(hascl(snap(it, st, a)) for a in args):
            return None
        if retty and (ARR in retty or PYARR in retty):
            return self.sym(st.heap, retty, "py%s_%s" % (fr.key if fr else 0, "_".join(map(str, site))), {})
        return None

    # -- records
    def on_load(self, it, fr, st, ptr, ty, span):
        self.rec(it, fr, st, "load", ty, ptr, None, span)

    def on_store(self, it, fr, st, ptr, ty, val, span):
        self.rec(it, fr, st, "store", ty, ptr, val, span)

    def on_write(self, it, fr, st, obj, projs, val, span):
        if obj[0] == "D":
            self.rec(it, fr, st, "write", None, obj[1], val, span)

    def rec(self, it, fr, st, kind, ty, ptr, val, span):
        self.acc.append((kind, ty, ptr, val, fr.path, span, frozenset(k.a[1] for k, f in st.facts.items() if k.__class__ is Val and k.k == "t" and k.a[0] == "contig" and f == frozenset((1,)))))
        if it.spec or self.assumes(st):
            self.loose.add(len(self.acc) - 1)

    def assumes(self, st):
        """This path supposes something of a dtype that is not determined."""
        for k, f in st.facts.items():
            if k.__class__ is Val and k.k == "t" and k.a[0] == "discr" and f.__class__ is frozenset:
                v = k.a[1]
                if v.k == "P" and v.a[1]:
                    if any(x.k == "A" and x.a[0] == KIND for x in v.a[1]) and len(f) < len(v.a[1]):
                        return True
                elif v.k == "t" and v.a[0] == "call" and v.a[1].endswith("::kind") and len(f) < len(self.D.kinds):
                    return True
        return False

    def on_call(self, it, fr, st, fn, args, span):
        if fn["path"] == "std::vec::from_elem":
            return T("buf", (fr.key, fr.bb), *args)
        return None

    def on_ext(self, it, fr, st, path, fn, args, span):
        if "from_raw_parts" in path:
            self.rec(it, fr, st, "slice-mut" if path.endswith("mut") else "slice", fn.get("res_args", fn["args"])[0], args[0], None, span)
        elif "copy_nonoverlapping" in path or path in ("std::ptr::copy", "core::intrinsics::copy"):
            ty = fn.get("res_args", fn["args"])[0]
            self.rec(it, fr, st, "copy-from", ty, args[0], args[2], span)
            self.rec(it, fr, st, "copy-to", ty, args[1], args[2], span)

    def on_agg(self, it, fr, st, path, variant, fields, names, span):
        if path != ARR:
            return
        b = fields[0]
        dn = self.D.kind_of(fields[4], st.heap, st.facts)
        ids = ident(b)
        if b.k == "R":
            ids |= ident(it.pointee(st, b)) | bufs_in(snap(it, st, it.pointee(st, b)))
        for f in ids:
            if f is not None:
                self.bufs.setdefault(f, set()).add(dn)
        self.arrs.append((fields, dn, fr.path, span))

    def on_invoke(self, it, fr, st, inst, args, span):
        p = inst["path"]
        if fr is None:
            return None
        if is_py(fr.path) and not is_py(p) and p.startswith("rumpy::"):
            self.invoked.add((p, self.arg_dtypes(it, st, inst, args)))
        n = p.rsplit("::", 1)[-1]
        if n in ("astype", "copy", "is_c_contiguous", "broadcast_to") and "RumpyArray" in p and p.startswith("rumpy::array"):
            a = it.resolve(st, args[0])
            v = it.pointee(st, a) if a.k == "R" else None
            if v is not None and v.k == "A" and v.a[0] == ARR and v.a[2][0].k == "u":
                nm = v.a[2][0].a[0]
                if n == "is_c_contiguous":
                    return T("contig", nm) if not nm.endswith("@copy") and "@=" not in nm else TRUE
                if n == "copy":
                    return self.sub(nm + "@copy", v.a[2][2], v.a[2][4])
                if n == "broadcast_to":
                    q = nm + "@bc"
                    w = mk("A", ARR, 0, (v.a[2][0], v.a[2][1], snap(it, st, args[1]), mk("u", q, "strides"), v.a[2][4], mk("u", q, "flags")))
                    return mk("P", (fr.key, "bc", span, nm), frozenset((some(w), NONE)))
                dn = self.D.kind_of(args[1], st.heap, st.facts)
                if dn and not dn.startswith(("one", "undet")):
                    return self.sub(nm + "@=" + dn, v.a[2][2], self.D.val[dn])
        if is_py(p) and fr is not None:
            ret = inst["locals"][0][0]
            ts = [inst["locals"][k][0] for k in range(1, inst["argc"] + 1)]
            if "{closure" not in p and (ARR in ret or PYARR in ret) and ts and all("pyo3::Bound" in t or "pyo3::Py" in t for t in ts) and not any(ARR in t or PYARR in t for t in ts):
                # an array made from a Python object (the function itself is analysed on its own)
                nm = "py%s_%s" % (fr.key, fr.bb)
                want = self.dts[min(len(self.names), len(self.dts) - 1)]
                got = self.result_dtypes(it.p, inst, want)
                if want not in got:
                    self.names[nm] = next(iter(got)) if len(got) == 1 else None
                    if self.names[nm] not in self.D.val:
                        self.names[nm] = None
                return self.sym(st.heap, ret, nm, {})
        return None

    CACHE = {}

    def result_dtypes(self, prog, inst, want):
        """dtype names of the arrays a function returns, given that what it extracts from Python has dtype `want`."""
        k = (inst["id"] if "id" in inst else inst["path"], want)
        if k not in self.CACHE:
            self.CACHE[k] = {want}
            r = run(prog, self.D, inst, [want], {}, 200_000)
            if r is not None and r[2] not in ("budget", None):
                st, v = r[2]
                it, out, work, seen = r[0], set(), [v], set()
                while work and len(seen) < 200:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.k == "A" and x.a[0] == ARR:
                        out.add(self.D.kind_of(x.a[2][4], st.heap, st.facts) or "undetermined")
                    elif x.k == "A":
                        work += x.a[2]
                    elif x.k == "P":
                        work += x.a[1] or it.deps.get(x) or [mk("u", "lost", 0)]
                    elif x.k == "R":
                        work.append(it.pointee(st, x))
                    elif x.k in ("u", "t"):
                        out.add("undetermined")
                self.CACHE[k] = out or {want}
        return self.CACHE[k]

    def arg_dtypes(self, it, st, inst, args):
        out = []
        for k, a in enumerate(args):
            if ARR in inst["locals"][k + 1][0]:
                a = it.resolve(st, a)
                v = it.pointee(st, a) if a.k == "R" else a
                out.append(self.D.kind_of(v.a[2][4], st.heap, st.facts) if v.k == "A" and v.a[0] == ARR else None)
        return tuple(out)

    def sub(self, nm, shape, dt):
        return mk("A", ARR, 0, (mk("u", nm, "buffer"), K(0), shape, mk("u", nm, "strides"), dt, mk("u", nm, "flags")))

    def dname(self, nm):
        d = None
        for i, c in enumerate(nm.split("@")):
            if i == 0:
                d = self.names.get(c)
            elif c.startswith("="):
                d = c[1:]
        return d


def enums_of(prog):
    """The crate's own enums whose variants carry nothing."""
    return {p: a for p, a in prog.adts.items() if p.startswith("rumpy::") and a.is_enum and all(not v[2] for v in a.variants)}


def first(t):
    """First of the comma-separated types in t."""
    d = 0
    for i, c in enumerate(t):
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        elif c in ",;" and d == 0:
            return t[:i]
    return t


def run(prog, D, fn, dts, enums={}, max_steps=400_000, obs=None):
    o = obs or Sweep(D, dts)
    h = dict(D.heap)
    args = []
    for k in range(1, fn["argc"] + 1):
        a = o.sym(h, fn["locals"][k][0], "arr%d" % k, enums)
        if a is None:
            return None
        args.append(a)
    it = Interp(prog, o, max_steps=max_steps)
    it.max_rec = 3
    try:
        r = it.run(fn, args, heap=h)
    except Budget:
        return it, o, "budget"
    return it, o, r
