"""C08: array memory is read and written only as the type its dtype stores."""
import collections, re
from sweep import *
from core import pmap

SINGLE = NUMERIC + ["datetime64[Seconds]", "timedelta64[Days]", "str[3]"]
PAIRS = ["float64+int32", "int32+float64", "bool+float32", "float32+bool", "int64+uint8", "uint8+int64", "complex128+float32", "float32+complex128", "float16+int16", "int16+float16",
         "float64+bool", "bool+int64", "uint16+complex64", "datetime64[Seconds]+timedelta64[Days]", "timedelta64[Days]+datetime64[Seconds]", "float64+str[3]"]
RAW = re.compile(r"\*(const|mut) \[?(u8|i8|u16|i16|u32|i32|u64|i64|f32|f64|bool|half::f16|num_complex|faer|std::num)")


def okty(d):
    if d.startswith("str["):
        return {"u32"}
    if d.startswith("bytes"):
        return {"u8"}
    return OKTY.get(d, ())


KNOWN = {r for v in OKTY.values() for r in v} | {"usize", "isize", "u32", "u8", "char", "i128", "u128"}


def canonical(ty):
    """The element type behind wrappers of the same layout; None for other types."""
    while True:
        m = re.match(r"^(?:std|core)::(?:num::Wrapping|mem::MaybeUninit|mem::ManuallyDrop|cell::UnsafeCell|cell::Cell)<(.*)>$", ty) or re.match(r"^\[(.*?)(?:; [^;]*)?\]$", ty)
        if not m:
            break
        ty = m.group(1)
    ty = {"faer::complex_native::c32": "num_complex::Complex<f32>", "faer::complex_native::c64": "num_complex::Complex<f64>"}.get(ty, ty)
    return ty if ty in KNOWN or ty.startswith("num_complex::Complex") else None


def dtypes_of(o, it, ptr):
    """(dtype names the addressed memory may have, definite) or a reason why not known."""
    b, ix = base_of(ptr)
    ids = ident(b, it)
    if None in ids or not ids:
        return "address not resolved to an array"
    ds, definite = set(), True
    for w, q in ids:
        s = {o.dname(q)} if w == "arr" else o.bufs.get((w, q), set())
        if not s:
            return "buffer not (yet) part of an array"
        for d in s:
            if d is None or d.startswith("undet"):
                return "dtype not determined"
            if d.startswith("one of "):
                ds |= set(d[7:].split(", "))
                definite = False
            else:
                ds.add(d)
    return ds, definite and len(ds) == 1


def job(x):
    level, name, cfg, steps = x
    prog, D, enums, fns = G
    fn = fns[level][name]
    dts = cfg.split("+")
    try:
        r = run(prog, D, fn, dts, enums, steps)
    except RecursionError:
        return level, name, cfg, "not interpreted (recursion)", {}, [], set(), 0
    if r is None:
        return level, name, cfg, "no arguments of this shape", {}, [], set(), 0
    it, o, res = r
    if len(dts) > 1 and len(o.names) < 2:
        return level, name, cfg, "one array only", {}, [], set(), 0
    c, bad = collections.Counter(), []
    for na, (kind, ty, ptr, val, f, span, fc) in enumerate(o.acc):
        if ty is None:
            continue
        d = dtypes_of(o, it, ptr)
        if isinstance(d, str):
            c[d] += 1
            continue
        ds, definite = d
        ty = canonical(ty)
        if ty is None:
            c["as a type not known here"] += 1
        elif any(ty in okty(y) for y in ds):
            c["typed as its dtype" if definite else "typed as one of the possible dtypes"] += 1
        elif ty == "u8" and kind[:4] in ("copy", "slic"):
            c["moved as bytes"] += 1
        elif not all(okty(y) for y in ds):
            c["dtype without a fixed type"] += 1
        elif not definite or na in o.loose or level == "py" and not is_py(f):
            c["imprecise"] += 1
        else:
            bad.append((kind, ty, tuple(sorted(ds)), f, span))
    s = "budget" if res == "budget" else "complete" if res else "no path returns"
    return level, name, cfg, s, dict(c), bad, o.invoked, len(o.acc)


def raw(prog, i, seen):
    """Does this function, or one of the Python layer it refers to, have element pointers among its locals?"""
    if id(i) in seen:
        return False
    seen.add(id(i))
    if any(RAW.search(l[0]) for l in i["locals"]):
        return True
    return any(raw(prog, k, seen) for c in fnrefs(i["blocks"]) for k in [prog.insts.get(c)] if k is not None and is_py(k["path"]))


def check(prog, rep):
    global G
    D = Dtypes(prog)
    enums = enums_of(prog)
    E, P = entries(prog), py_entries(prog)
    G = (prog, D, enums, {"rs": E, "py": P})
    rep.count("array functions called from the Python layer", len(E))
    rep.count("functions of the Python layer", len(P))
    thorough = rep.tier == "thorough"
    cfgs = SINGLE + PAIRS
    touching = [n for n in sorted(P) if thorough or raw(prog, P[n], set())]
    rep.count("functions of the Python layer that handle raw element pointers", len(touching))
    ran = {(n, c) for n in touching for c in cfgs}
    steps = 1_500_000 if thorough else 200_000
    two = {n for n, f in E.items() if sum(ARR in f["locals"][k][0] for k in range(1, f["argc"] + 1)) > 1 or any("Vec<" in f["locals"][k][0] or "&[" in f["locals"][k][0] for k in range(1, f["argc"] + 1) if ARR in f["locals"][k][0])}
    jobs = [("rs", n, c, steps) for n in sorted(E) for c in cfgs if "+" not in c or n in two]
    jobs += [("py", n, c, steps) for n, c in sorted(ran)]
    jobs.sort(key=lambda j: j[1].rsplit("::", 1)[-1] not in ("einsum", "mean", "var", "std"))
    res = pmap(job, jobs)
    invoked, incomplete = collections.defaultdict(set), collections.defaultdict(set)

    def note_calls(n, cfg, s, inv):
        for q, ds in inv:
            invoked[q, cfg].add(ds)
        if s not in ("complete", "one array only", "no arguments of this shape"):
            incomplete[n].add(cfg)

    for lv, n, cfg, s, c, bad, inv, na in res:
        if lv == "py":
            note_calls(n, cfg, s, inv)
    # callers of suspicious functions are analysed for the dtypes in question before anything is reported
    more = set()
    for lv, n, cfg, s, c, bad, inv, na in res:
        if lv == "rs" and bad:
            more |= {(q, cfg) for q in callers(prog, E[n], P)} - ran
    for lv, n, cfg, s, c, bad, inv, na in pmap(job, [("py", q, c, steps) for q, c in sorted(more)]):
        note_calls(n, cfg, s, inv)
    found = {}
    for lv, n, cfg, s, c, bad, inv, na in res:
        rep.count("runs " + s)
        good = c.get("typed as its dtype", 0) + c.get("typed as one of the possible dtypes", 0) + c.get("moved as bytes", 0)
        rep.obl += good
        rep.done += good
        for k, v in c.items():
            rep.count("accesses " + k, v)
        for kind, ty, ds, f, span in bad:
            if lv == "rs" and barred(n, cfg, invoked, incomplete, prog, E, P):
                rep.count("accesses behind a check of the Python layer")
                continue
            found.setdefault((kind, ty, f, span), []).append((ds, n, cfg))
    for (kind, ty, f, span), xs in found.items():
        ds, n, cfg = xs[0]
        rep.obl += 1
        rep.violation("access:%s:%s:%s:%s" % (f, kind, ty, ",".join(ds)),
                      "%s (%s) as %s of memory of dtype %s in %s, reached from %s with %s arrays%s" % (kind, span, ty, "/".join(ds), f, n, cfg, " and %d more ways" % (len(xs) - 1) if len(xs) > 1 else ""))
    for s in [("array %s" % n) for n in sorted(E)[:3]]:
        rep.samples.append(s)
    rep.rule = ("abstract interpretation of every array function reachable from Python, once per dtype (and dtype pair), with symbolic arrays: every load, store, slice and copy through a raw pointer whose address is "
                "derived from an array's buffer has the Rust type of that array's dtype; accesses whose address or dtype is not determined are counted, not judged")
    rep.assumptions = ["rustc's MIR of the crate as built", "the interpreter in sa/ and its models of std", "values from Python that are not arrays are unknown"]
    rep.floor("array functions called from the Python layer", 300)
    rep.floor("functions of the Python layer", 450)
    rep.floor("accesses typed as its dtype", 30000)
    rep.floor("runs complete", 6000)
    rep.floor("functions of the Python layer that handle raw element pointers", 40)


def barred(n, cfg, invoked, incomplete, prog, E, P):
    """The Python layer never calls n with these dtypes: its callers were analysed for them, completely."""
    want = set(cfg.split("+"))
    for ds in invoked[n, cfg]:
        for d in ds:
            if d is None or d.startswith(("one", "undet")) or d in want:
                return False
    return not any(cfg in incomplete.get(q, ()) for q in callers(prog, E[n], P))


def callers(prog, fn, P):
    out = set()
    for q, i in P.items():
        work, seen = [i], set()
        while work:
            j = work.pop()
            if id(j) in seen:
                continue
            seen.add(id(j))
            for c in fnrefs(j["blocks"]):
                if prog.insts.get(c) is fn:
                    out.add(q)
                k = prog.insts.get(c)
                if k is not None and is_py(k["path"]):
                    work.append(k)
    return out
