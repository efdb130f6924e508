"""Abstract models of the std/pyo3 functions the analyses look through.

Anything not listed is opaque: its result is a term over its (immutable)
arguments, or a fresh symbol per call site if it may mutate something; mutable
references handed to it are forgotten; closures handed to it are analysed once
with unknown arguments (they may run)."""
from interp import *
from interp import _fkey
import classes as CLS

MODELS = {}


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


PANICS = ("core::panicking::", "std::panicking::", "std::rt::panic", "std::option::unwrap_failed", "core::option::", "std::result::unwrap_failed",
          "core::result::unwrap_failed", "core::slice::index::slice_", "std::process::", "alloc::alloc::handle_alloc_error", "core::cell::panic", "std::rt::begin_panic",
          "core::str::slice_error_fail", "std::rt::panic_fmt")


def is_panic(p):
    return p.startswith(PANICS)


def fresh(it, st, fr, site, *tag):
    v = mk("u", "c", fr.key if fr else 0, site, *tag)
    it.redefine(st, v)
    return v


def snap(it, st, v, d=0):
    """v as an immutable value: references replaced by what they denote now."""
    if v.k == "R" and v.a[0][0] == "I":
        return v    # immutable already
    if v.k == "R" and d < 3:
        return T("&", snap(it, st, it.readp(st, v.a[0], v.a[1]), d + 1))
    if v.k == "A" and d < 3 and any(x.k == "R" for x in v.a[2]):
        return mk("A", v.a[0], v.a[1], tuple(snap(it, st, x, d + 1) for x in v.a[2]))
    if v.k == "D":
        return v
    if v.k not in ("k", "str", "A", "R"):
        h = st.heap.get(("D", v))
        if h is not None:
            return T("&", h)
    return v


def havoc_mut(it, fr, st, args, argtys, site):
    mutated = False
    for i, a in enumerate(args):
        ty = argtys[i] if argtys and i < len(argtys) else None
        if a.k == "R" and (a.a[2] == 1 and (ty is None or ty.startswith(("&mut", "*mut")) or ty.startswith("&'") and " mut " in ty[:20])):
            # &mut to a reference/iterator: forget the pointee
            v = fresh(it, st, fr, site, "hv", i)
            it.note(v, *[snap(it, st, x) for x in args])
            it.obs.on_write(it, fr, st, a.a[0], a.a[1], v, None)
            it.writep(fr, st, a.a[0], a.a[1], v, (fr.key, site, i))
            mutated = True
        elif ty is not None and ty.startswith("&mut"):
            mutated = True
            o = ("D", a)
            v = fresh(it, st, fr, site, "hv", i)
            it.note(v, *[snap(it, st, x) for x in args])
            st.heap[o] = v
    return mutated


def run_closures(it, fr, st, args, site, span):
    """Closures handed to unknown code: analyse with unknown arguments, join with not running them."""
    for i, a in enumerate(args):
        c = a
        if c.k == "R":
            p = it.pointee(st, c)
            if p.k == "C":
                c = a
            else:
                continue
        elif c.k not in ("C",):
            continue
        cv = it.pointee(st, c) if c.k == "R" else c
        inst = it.p.insts.get(cv.a[0])
        if inst is None:
            continue
        n = inst["argc"] - 1
        cargs = [fresh(it, st, fr, site, "ca", i, j) for j in range(n)]
        s0 = st.copy()
        r = it.call_closure(fr, st.copy(), c, cargs, site + ("cl", i), span, None)
        if r is not None:
            s, _ = it.joinrets(fr, [(s0, UNIT), (r[0], UNIT)], site + ("clj", i))
            st = s
    return st


def default_ext(it, fr, st, path, fn, args, argtys, site, span, retty):
    it.opaque[path] += 1
    if any(a.k == "C" or (a.k == "R" and it.pointee(st, a).k == "C") for a in args):
        st = run_closures(it, fr, st, args, site, span)
        mut = True
    else:
        mut = False
    pure_args = None
    if not mut:
        pure_args = tuple(snap(it, st, a) for a in args)
    if havoc_mut(it, fr, st, args, argtys, site):
        mut = True
    if retty == "()" or retty == "!":
        return st, UNIT
    r = it.obs.ret_ext(it, fr, st, path, args, site, retty)
    if r is not None:
        return st, r
    if mut or any(hascl(a) for a in pure_args) or path.startswith("<indirect") or pure_args is None or max([a.depth for a in pure_args] or [0]) > MAXD - 4:
        return st, it.note(fresh(it, st, fr, site, "r"), *(pure_args or [snap(it, st, x) for x in args]))
    if fn is not None and fn.get("args"):
        ga = tuple(fn.get("res_args", fn["args"]))
    else:
        ga = ()
    return st, T("call", path, ga, *pure_args)


def ident(i=0):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        return st, args[i]
    return f


def ident_value(it, fr, st, fn, args, argtys, site, span, retty):
    """clone-like: the value behind the reference."""
    return st, it.pointee(st, args[0])


for p in ("<I as std::iter::IntoIterator>::into_iter", "std::hint::must_use", "<std::vec::Vec<T, A> as std::ops::Deref>::deref",
          "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
          "<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "std::ptr::const_ptr::<impl *const T>::cast",
          "std::ptr::mut_ptr::<impl *mut T>::cast", "std::ptr::mut_ptr::<impl *mut T>::cast_const", "std::ptr::const_ptr::<impl *const T>::cast_mut",
          "<T as std::convert::Into<U>>::into", "<T as std::convert::From<T>>::from", "std::convert::identity",
          "core::slice::<impl [T]>::as_ref", "std::boxed::box_assume_init_into_vec_unsafe", "core::str::<impl str>::as_ref",
          "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "std::vec::Vec::<T, A>::into_boxed_slice", "std::iter::Iterator::copied", "std::iter::Iterator::cloned",
          "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow", "std::mem::ManuallyDrop::<T>::new", "std::mem::ManuallyDrop::<T>::into_inner",
          "std::ptr::NonNull::<T>::as_ptr", "std::ptr::NonNull::<T>::new_unchecked", "core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr",
          "pyo3::Bound::<'py, T>::into_any", "pyo3::Bound::<'py, T>::as_any", "std::iter::Iterator::by_ref"):
    MODELS[p] = ident()

for p in ("<std::vec::Vec<T, A> as std::clone::Clone>::clone", "std::slice::<impl [T]>::to_vec", "<std::sync::Arc<T, A> as std::clone::Clone>::clone",
          "<std::boxed::Box<T, A> as std::clone::Clone>::clone", "std::clone::impls::<impl std::clone::Clone for &T>::clone", "std::clone::Clone::clone",
          "std::slice::<impl [T]>::into_vec", "std::borrow::ToOwned::to_owned", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned",
          "<std::string::String as std::clone::Clone>::clone", "std::str::<impl std::borrow::ToOwned for str>::to_owned"):
    MODELS[p] = ident_value


def deref_ptr(it, fr, st, fn, args, argtys, site, span, retty):
    """Arc/Box/PyRef deref: reference to the pointee."""
    v = it.resolve(st, it.pointee(st, args[0]))
    return st, v   # a pointer value: &*arc is the pointer itself


MODELS["<std::sync::Arc<T, A> as std::ops::Deref>::deref"] = deref_ptr
MODELS["<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref"] = deref_ptr
MODELS["<std::boxed::Box<T, A> as std::ops::Deref>::deref"] = deref_ptr
MODELS["<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref"] = deref_ptr
MODELS["<pyo3::PyRef<'_, T> as std::ops::Deref>::deref"] = deref_ptr
MODELS["<pyo3::PyRefMut<'_, T> as std::ops::Deref>::deref"] = deref_ptr
MODELS["<pyo3::PyRefMut<'_, T> as std::ops::DerefMut>::deref_mut"] = deref_ptr


def constant(v):
    return v.k == "A" and v.a[0].startswith("rumpy::array::dtype::") and all(x.k == "k" or constant(x) for x in v.a[2])


@model("std::sync::Arc::<T>::new", "std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T, A>::new")
def arc_new(it, fr, st, fn, args, argtys, site, span, retty):
    if constant(args[0]) and "Arc" in fn.get("res", fn["path"]):
        # shared immutable constant (dtypes): identified by its content
        return st, mk("R", ("I", args[0]), (), 0)
    o = ("H", fr.key, site)
    st.heap[o] = args[0]
    return st, mk("R", o, (), 1)


@model("<std::sync::Arc<T> as std::convert::From<T>>::from")
def arc_from(it, fr, st, fn, args, argtys, site, span, retty):
    return arc_new(it, fr, st, fn, args, argtys, site, span, retty)


@model("std::boxed::Box::<T>::new_uninit")
def box_uninit(it, fr, st, fn, args, argtys, site, span, retty):
    o = ("H", fr.key, site)
    st.heap[o] = mk("u", "uninit")
    return st, mk("R", o, (), 1)


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_to_vec(it, fr, st, fn, args, argtys, site, span, retty):
    v = args[0]
    if v.k == "R":
        v = it.pointee(st, v)
    # MaybeUninit / ManuallyDrop / MaybeDangling wrappers
    for _ in range(4):
        if v.k == "A" and v.a[0] != "[]" and len(v.a[2]) >= 1:
            v = v.a[2][-1]
    return st, v


@model("std::sync::Arc::<T, A>::get_mut", "std::sync::Arc::<T, A>::make_mut")
def arc_get_mut(it, fr, st, fn, args, argtys, site, span, retty):
    v = it.resolve(st, it.pointee(st, args[0]))
    if v.k == "R" and v.a[0][0] == "H":
        # uniquely owned by construction unless cloned; both outcomes for make_mut-less get_mut
        return st, some(v) if retty is None or "Option" in retty else v
    if retty and "Option" in retty:
        key = (fr.key, site, "getmut")
        p = mk("P", key, frozenset((some(v), NONE)))
        it.redefine(st, p)
        return st, p
    return st, v


@model("std::sync::Arc::<T, A>::strong_count")
def strong_count(it, fr, st, fn, args, argtys, site, span, retty):
    return st, T("strong_count", it.pointee(st, args[0]))


@model("std::sync::Arc::<T, A>::ptr_eq")
def ptr_eq(it, fr, st, fn, args, argtys, site, span, retty):
    a, b = it.pointee(st, args[0]), it.pointee(st, args[1])
    if a is b:
        return st, TRUE
    x, y = order(a, b)
    return st, it.known(st, T("ptr_eq", x, y))


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def discriminant_value(it, fr, st, fn, args, argtys, site, span, retty):
    return st, it.discr(st, it.pointee(st, args[0]), None)


def _padd(size=None, neg=False):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        s = size if size is not None else size_of(fn.get("res_args", fn["args"])[0])
        n = it.known(st, args[1])
        if neg:
            n = it.binop(st, "Sub", K(0), n, "isize")
        return st, padd(args[0], n, s)
    return f


for c in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
    for m in ("add", "offset", "wrapping_add", "wrapping_offset"):
        MODELS["std::ptr::%s::%s" % (c, m)] = _padd()
    for m in ("byte_offset", "byte_add", "wrapping_byte_offset", "wrapping_byte_add"):
        MODELS["std::ptr::%s::%s" % (c, m)] = _padd(1)
    MODELS["std::ptr::%s::sub" % c] = _padd(None, True)
    MODELS["std::ptr::%s::byte_sub" % c] = _padd(1, True)


def _ptr_read(it, fr, st, fn, args, argtys, site, span, retty):
    ty = fn.get("res_args", fn["args"])[0]
    p = args[0]
    if p.k == "R":
        return st, it.pointee(st, p)
    return st, it.loadraw(fr, st, p, ty, (), span)


def _ptr_write(it, fr, st, fn, args, argtys, site, span, retty):
    ty = fn.get("res_args", fn["args"])[0]
    p = args[0]
    if p.k == "R":
        it.writep(fr, st, p.a[0], p.a[1], args[1], (fr.key, site))
    else:
        it.obs.on_store(it, fr, st, p, ty, args[1], span)
    return st, UNIT


for n in ("std::ptr::read", "std::ptr::read_unaligned", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::mut_ptr::<impl *mut T>::read",
          "std::ptr::const_ptr::<impl *const T>::read_unaligned", "std::ptr::mut_ptr::<impl *mut T>::read_unaligned"):
    MODELS[n] = _ptr_read
for n in ("std::ptr::write", "std::ptr::write_unaligned", "std::ptr::mut_ptr::<impl *mut T>::write", "std::ptr::mut_ptr::<impl *mut T>::write_unaligned"):
    MODELS[n] = _ptr_write


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "core::slice::raw::from_raw_parts")
def from_raw(it, fr, st, fn, args, argtys, site, span, retty):
    ty = fn.get("res_args", fn["args"])[0]
    v = T("rawslice", args[0], it.known(st, args[1]), ty)
    return st, v


def _len(it, fr, st, fn, args, argtys, site, span, retty):
    v = it.pointee(st, args[0])
    if args[0].k == "t" and args[0].a[0] == "rawslice":
        return st, args[0].a[2]
    if args[0].k == "t" and args[0].a[0] == "vslice":
        return st, args[0].a[2]
    return st, it.known(st, lenof(v))


def lenof(v):
    if v.k == "A" and v.a[0] == "[]":
        return K(len(v.a[2]))
    if v.k == "t" and v.a[0] == "call" and v.a[1] == "std::vec::from_elem":
        return v.a[4] if len(v.a) > 4 else T("len", v)
    if v.k == "str":
        return K(len(v.a[0].encode()))
    return T("len", v)


for n in ("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "core::str::<impl str>::len", "std::string::String::len"):
    MODELS[n] = _len


def _is_empty(it, fr, st, fn, args, argtys, site, span, retty):
    st, l = _len(it, fr, st, fn, args, argtys, site, span, retty)
    return st, it.binop(st, "Eq", l, K(0), "usize")


for n in ("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "core::str::<impl str>::is_empty"):
    MODELS[n] = _is_empty


def _index(it, fr, st, fn, args, argtys, site, span, retty):
    b, i = args[0], it.known(st, args[1])
    ity = argtys[1] if argtys else None
    isidx = ity == "usize" or (ity is None)
    if not isidx:
        # range index: a sub-slice of the same storage
        return st, T("vslice", snapkey(it, st, b), T("rlen", i), i)
    it.obs.on_ext(it, fr, st, "#index", fn, args, span)
    if b.k == "R":
        ln = lenof(it.pointee(st, b))
        c = it.known(st, T("Lt", i, ln)) if i.k != "k" or ln.k != "k" else K(int(i.a[0] < ln.a[0]))
        it.assume(st, T("Lt", i, ln), frozenset((1,)))
        return st, mk("R", b.a[0], b.a[1] + (("i", i),), b.a[2])
    if b.k == "t" and b.a[0] == "rawslice":
        return st, padd(b.a[1], i, size_of(b.a[3]))
    ln = lenof(it.pointee(st, b))
    it.assume(st, T("Lt", i, ln), frozenset((1,)))
    return st, mk("R", ("D", b), (("i", i),), 0)


def snapkey(it, st, b):
    return b if b.k != "R" else T("&", it.pointee(st, b))


for n in ("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
          "core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
          "core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut"):
    MODELS[n] = _index


@model("core::str::traits::<impl std::cmp::PartialEq for str>::eq")
def str_eq(it, fr, st, fn, args, argtys, site, span, retty):
    a, b = args
    a = strval(it, st, a)
    b = strval(it, st, b)
    if a.k == "str" and b.k == "str":
        return st, K(int(a.a[0] == b.a[0]))
    x, y = (a, b) if b.k == "str" else order(a, b)
    t = T("streq", x, y)
    r = it.known(st, t)
    if r.k == "t" and y.k == "str" and x.k != "str":
        # equal to another literal already?
        for k, fs in st.facts.items():
            if k.__class__ is Val and k.k == "t" and k.a[0] == "streq" and k.a[1] is x and fs == frozenset((1,)) and k is not t:
                return st, FALSE
    return st, r


def strval(it, st, v):
    for _ in range(3):
        if v.k == "R":
            v = it.pointee(st, v)
    return v


@model("<T as std::string::ToString>::to_string", "<str as std::string::SpecToString>::spec_to_string", "<std::string::String as std::convert::From<&str>>::from")
def to_string(it, fr, st, fn, args, argtys, site, span, retty):
    v = strval(it, st, args[0])
    if v.k == "str":
        return st, v
    return default_ext(it, fr, st, "to_string", fn, args, argtys, site, span, retty)


@model("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix", "core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with",
       "core::str::<impl str>::trim_start_matches", "core::str::<impl str>::contains", "core::str::<impl str>::trim")
def str_ops(it, fr, st, fn, args, argtys, site, span, retty):
    name = fn.get("res", fn["path"]).split("::")[-1]
    s = strval(it, st, args[0])
    pat = None
    if len(args) > 1:
        p = strval(it, st, args[1])
        if p.k == "str":
            pat = p.a[0]
        elif p.k == "k" and argtys[1] == "char":
            pat = chr(p.a[0])
    if s.k == "str" and (pat is not None or name == "trim"):
        x = s.a[0]
        if name == "strip_prefix":
            return st, some(mk("str", x[len(pat):])) if x.startswith(pat) else NONE
        if name == "strip_suffix":
            return st, some(mk("str", x[:len(x) - len(pat)])) if x.endswith(pat) else NONE
        if name == "starts_with":
            return st, K(int(x.startswith(pat)))
        if name == "ends_with":
            return st, K(int(x.endswith(pat)))
        if name == "contains":
            return st, K(int(pat in x))
        if name == "trim":
            return st, mk("str", x.strip())
        if name == "trim_start_matches":
            while pat and x.startswith(pat):
                x = x[len(pat):]
            return st, mk("str", x)
    return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)


@model("core::str::<impl str>::parse")
def str_parse(it, fr, st, fn, args, argtys, site, span, retty):
    ty = fn.get("res_args", fn["args"])[0]
    s = strval(it, st, args[0])
    imp = it.p.impl_index.get(("std::str::FromStr", ty))
    if imp and "from_str" in imp:
        l = it.p.by_path.get(imp["from_str"], [])
        if len(l) == 1:
            return it.invoke(fr, st, l[0], [args[0]], site, span, retty)
    if s.k == "str" and ty in INTW:
        try:
            return st, adt(RES, 0, K(int(s.a[0])))
        except ValueError:
            return st, adt(RES, 1, mk("u", "parseerr"))
    return default_ext(it, fr, st, "core::str::parse", fn, args, argtys, site, span, retty)


@model("core::str::<impl str>::find")
def str_find(it, fr, st, fn, args, argtys, site, span, retty):
    s, p = strval(it, st, args[0]), strval(it, st, args[1])
    pat = p.a[0] if p.k == "str" else chr(p.a[0]) if p.k == "k" and argtys[1] == "char" else None
    if s.k == "str" and pat is not None and s.a[0].isascii():
        i = s.a[0].find(pat)
        return st, NONE if i < 0 else some(K(i))
    return default_ext(it, fr, st, "core::str::<impl str>::find", fn, args, argtys, site, span, retty)


@model("core::str::traits::<impl std::ops::Index<I> for str>::index")
def str_index(it, fr, st, fn, args, argtys, site, span, retty):
    s, r = strval(it, st, args[0]), it.resolve(st, args[1])
    if s.k == "str" and s.a[0].isascii() and r.k == "A" and all(x.k == "k" for x in r.a[2]):
        n = r.a[0].split("::")[-1]
        b = [x.a[0] for x in r.a[2]]
        x = s.a[0]
        lo, hi = (b[0], len(x)) if n == "RangeFrom" else (0, b[0]) if n == "RangeTo" else (b[0], b[1]) if n == "Range" else (None, None)
        if lo is not None:
            if lo > hi or hi > len(x):
                it.obs.on_panic(it, fr, st, "str::index", span)
                return None
            return st, mk("str", x[lo:hi])
    return default_ext(it, fr, st, "core::str::traits::<impl std::ops::Index<I> for str>::index", fn, args, argtys, site, span, retty)


@model("core::str::<impl str>::chars")
def str_chars(it, fr, st, fn, args, argtys, site, span, retty):
    s = strval(it, st, args[0])
    if s.k == "str":
        return st, T("chars", s)
    return default_ext(it, fr, st, "core::str::<impl str>::chars", fn, args, argtys, site, span, retty)


_prev_nth = MODELS.get("std::iter::Iterator::nth")


@model("std::iter::Iterator::nth")
def iter_nth(it, fr, st, fn, args, argtys, site, span, retty):
    v = args[0]
    if v.k == "R":
        v = it.pointee(st, v)
    n = it.known(st, args[1])
    if v.k == "t" and v.a[0] == "chars" and v.a[1].k == "str" and n.k == "k":
        x = v.a[1].a[0]
        if args[0].k == "R":
            it.writep(fr, st, args[0].a[0], args[0].a[1], T("chars", mk("str", x[n.a[0] + 1:])), site)
        return st, some(K(ord(x[n.a[0]]))) if n.a[0] < len(x) else NONE
    if _prev_nth:
        return _prev_nth(it, fr, st, fn, args, argtys, site, span, retty)
    return default_ext(it, fr, st, "std::iter::Iterator::nth", fn, args, argtys, site, span, retty)


@model("std::hint::must_use")
def must_use(it, fr, st, fn, args, argtys, site, span, retty):
    return st, args[0]


@model("std::mem::size_of", "core::mem::size_of")
def size_of_m(it, fr, st, fn, args, argtys, site, span, retty):
    ty = fn.get("res_args", fn["args"])[0]
    s = SIZES.get(ty)
    return st, K(s) if s is not None else T("size_of", ty)


# ------------------------------------------------------------------ integers
def _wrapping(op):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        path = fn.get("res", fn["path"])
        ty = path.split("<impl ")[1].split(">")[0]
        a = it.known(st, args[0])
        b = it.known(st, args[1]) if len(args) > 1 else None
        if a.k == "cl" and op in ("Neg", "Abs"):
            if op == "Abs":
                lo = frozenset(c for c in a.a[1] if CLS.BYN[ty][c][0] < 0)
                return st, cl(ty, (a.a[1] - lo) | CLS.neg(ty, lo))
            return st, cl(ty, CLS.neg(ty, a.a[1]))
        if op in ("Neg",):
            if a.k == "k":
                return st, K(wrap(-a.a[0], ty))
            return st, T("Neg", a, ty)
        if op == "Abs":
            if a.k == "k":
                return st, K(wrap(abs(a.a[0]), ty))
            return st, T("Abs", a, ty)
        return st, it.binop(st, op, a, b, ty)
    return f


for ity in INTW:
    if ity in ("bool", "char"):
        continue
    pre = "core::num::<impl %s>::" % ity
    for n, op in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("wrapping_neg", "Neg"), ("wrapping_abs", "Abs")):
        MODELS[pre + n] = _wrapping(op)


def _opaque_term(name):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        return st, T("call", name, (), *[snap(it, st, a) for a in args])
    return f


# ------------------------------------------------------------------ iterators
# Iterator values are terms describing the sequence; next() yields a symbolic
# element and does not change the description.
def _slice_iter(it, fr, st, fn, args, argtys, site, span, retty):
    return st, T("iter", args[0])


for n in ("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
          "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
          "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter"):
    MODELS[n] = _slice_iter


@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "std::vec::Vec::<T, A>::drain")
def vec_into_iter(it, fr, st, fn, args, argtys, site, span, retty):
    return st, T("iterv", args[0])


@model("std::iter::Iterator::enumerate")
def it_enum(it, fr, st, fn, args, argtys, site, span, retty):
    return st, T("enum", args[0])


@model("std::iter::Iterator::zip")
def it_zip(it, fr, st, fn, args, argtys, site, span, retty):
    b = args[1]
    ty = argtys[1] if argtys else ""
    if ty and (ty.startswith("&")):
        b = T("iter", b)
    elif ty and ty.startswith("std::vec::Vec<"):
        b = T("iterv", b)
    return st, T("zip", args[0], b)


@model("std::iter::Iterator::rev", "std::iter::Iterator::skip", "std::iter::Iterator::take", "std::iter::Iterator::step_by", "std::iter::Iterator::take_while",
       "std::iter::Iterator::skip_while", "std::iter::Iterator::peekable", "std::iter::Iterator::inspect")
def it_same(it, fr, st, fn, args, argtys, site, span, retty):
    if len(args) > 1 and args[1].k == "C":
        return st, T("sel", args[0], args[1])
    return st, T("sel", args[0])


@model("std::iter::Iterator::map")
def it_map(it, fr, st, fn, args, argtys, site, span, retty):
    return st, T("map", args[0], args[1], (fr.key, site))


@model("std::iter::Iterator::filter", "std::iter::Iterator::filter_map", "std::iter::Iterator::flat_map")
def it_filter(it, fr, st, fn, args, argtys, site, span, retty):
    n = fn.get("res", fn["path"]).split("::")[-1]
    return st, T(n, args[0], args[1], (fr.key, site))


def elem(it, fr, st, itv, site, span):
    """One symbolic element of the sequence itv.  Returns (state, value)."""
    if itv.k == "R":
        itv = it.pointee(st, itv)
    itv = it.resolve(st, itv)
    if itv.k == "A" and itv.a[0] == "std::ops::Range":
        u = fresh(it, st, fr, site, "rng")
        lo, hi = itv.a[2]
        it.assume(st, T("Lt", u, hi), frozenset((1,)))
        if lo.k == "k" and lo.a[0] == 0:
            pass
        else:
            it.assume(st, T("Lt", u, lo), frozenset((0,)))
        return st, u
    if itv.k == "t":
        op = itv.a[0]
        if op == "iter":
            b = itv.a[1]
            u = fresh(it, st, fr, site, "ix")
            if b.k == "R":
                ln = lenof(it.pointee(st, b))
                it.assume(st, T("Lt", u, ln), frozenset((1,)))
                return st, mk("R", b.a[0], b.a[1] + (("i", u),), b.a[2])
            if b.k == "t" and b.a[0] == "rawslice":
                it.assume(st, T("Lt", u, b.a[2]), frozenset((1,)))
                return st, padd(b.a[1], u, size_of(b.a[3]))
            ln = lenof(it.pointee(st, b))
            it.assume(st, T("Lt", u, ln), frozenset((1,)))
            return st, mk("R", ("D", b), (("i", u),), 0)
        if op == "iterv":
            u = fresh(it, st, fr, site, "ix")
            it.assume(st, T("Lt", u, lenof(itv.a[1])), frozenset((1,)))
            return st, it.index(st, itv.a[1], u)
        if op == "enum":
            st, e = elem(it, fr, st, itv.a[1], site, span)
            i = fresh(it, st, fr, site, "ix")
            return st, tup(i, e)
        if op == "zip":
            st, a = elem(it, fr, st, itv.a[1], site, span)
            st, b = elem(it, fr, st, itv.a[2], site, span)
            return st, tup(a, b)
        if op == "sel":
            return elem(it, fr, st, itv.a[1], site, span)
        if op == "chain":
            return st, it.note(fresh(it, st, fr, site, "el"), itv)
        if op == "map":
            st, a = elem(it, fr, st, itv.a[1], site + ("m",), span)
            r = it.call_closure(fr, st, itv.a[2], [a], site + ("mc",), span, None)
            if r is None:
                return st, it.note(fresh(it, st, fr, site, "el"), itv)
            return r
        if op in ("filter",):
            st, a = elem(it, fr, st, itv.a[1], site + ("m",), span)
            o = ("H", fr.key, site, "fa")
            st.heap[o] = a
            r = it.call_closure(fr, st, itv.a[2], [mk("R", o, (), 0)], site + ("mc",), span, None)
            if r is None:
                return st, a
            st, c = r
            it.assume(st, c, frozenset((1,)))
            return st, a
        if op in ("filter_map", "flat_map"):
            st, a = elem(it, fr, st, itv.a[1], site + ("m",), span)
            r = it.call_closure(fr, st, itv.a[2], [a], site + ("mc",), span, None)
            if r is None:
                return st, it.note(fresh(it, st, fr, site, "el"), itv)
            st, v = r
            return st, (it.field(st, v, 0, 1) if op == "filter_map" else it.note(fresh(it, st, fr, site, "el"), itv))
    return st, it.note(fresh(it, st, fr, site, "el"), itv)


def _next(it, fr, st, fn, args, argtys, site, span, retty):
    itv = it.pointee(st, args[0])
    itv = it.resolve(st, itv)
    key = (fr.key, site, "next")
    s0 = st.copy()
    s1, e = elem(it, fr, st, itv, site, span)
    if itv.k == "u" or itv.k == "P":
        # unknown iterator: forget its state
        if args[0].k == "R":
            it.writep(fr, s1, args[0].a[0], args[0].a[1], it.note(fresh(it, s1, fr, site, "itst"), itv), (fr.key, site))
            s0 = s1.copy()
    p = mk("P", key, frozenset((some(e), NONE)))
    it.redefine(s1, p)
    it.redefine(s0, p)
    # facts true of the element hold when Some is returned
    base = s0.facts
    items = frozenset((k, f) for k, f in s1.facts.items() if base.get(k) != f and not (k.__class__ is tuple and k[0] == "imp"))
    d = T("discr", p)
    facts = dict(base)
    facts[("imp", d, 1)] = items
    facts[d] = frozenset((0, 1))
    if s1.heap is not s0.heap and s1.heap != s0.heap:
        s, _ = it.joinrets(fr, [(State(s0.frames, s0.heap, {}), UNIT), (State(s1.frames, s1.heap, {}), UNIT)], site + ("nx",))
        return State(s.frames, s.heap, facts), p
    return State(s1.frames, s1.heap, facts), p


for n in ("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next", "<std::iter::Enumerate<I> as std::iter::Iterator>::next",
          "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
          "<std::iter::Zip<A, B> as std::iter::Iterator>::next", "<std::iter::Rev<I> as std::iter::Iterator>::next", "<std::iter::Take<I> as std::iter::Iterator>::next",
          "<std::iter::Skip<I> as std::iter::Iterator>::next", "<std::iter::StepBy<I> as std::iter::Iterator>::next", "<std::iter::Map<B, I, F> as std::iter::Iterator>::next",
          "<std::iter::Map<I, F> as std::iter::Iterator>::next", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::iter::Filter<I, P> as std::iter::Iterator>::next",
          "<std::iter::FilterMap<B, I, F> as std::iter::Iterator>::next", "<std::iter::Copied<I> as std::iter::Iterator>::next", "<std::iter::Cloned<I> as std::iter::Iterator>::next",
          "std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next", "<std::array::IntoIter<T, N> as std::iter::Iterator>::next"):
    MODELS[n] = _next


@model("std::iter::Iterator::collect", "std::iter::Iterator::sum", "std::iter::Iterator::product", "std::iter::Iterator::count", "std::iter::Iterator::last",
       "std::iter::Iterator::max", "std::iter::Iterator::min", "<std::slice::Iter<'a, T> as std::iter::Iterator>::count")
def it_consume(it, fr, st, fn, args, argtys, site, span, retty):
    itv = args[0]
    name = fn.get("res", fn["path"]).split("::")[-1]
    # pure sequence over immutable contents: a deterministic term
    if itv.k == "t" and pure_iter(itv):
        return st, T("call", name, (retty,), seqterm(it, st, itv))
    if name == "collect" and it.obs.seqs and retty and retty.startswith("std::vec::Vec<"):
        r = unroll(it, fr, st, itv, site, span)
        if r is not None:
            return r[0], mk("A", "[]", 0, tuple(r[1]))
    s0 = st.copy()
    s1, e = elem(it, fr, st, itv, site + ("el",), span)
    s, _ = it.joinrets(fr, [(s0, UNIT), (s1, UNIT)], site + ("cj",))
    if name == "collect" and it.obs.seqs and retty:
        e = snap(it, s1, e)
        q = lambda x: mk("u", "seq", (fr.key, site), x) if holds_ptr(x) else None
        if retty.startswith("std::vec::Vec<"):
            r = q(e)
            if r is not None:
                return s, r
        elif retty.startswith("std::result::Result<std::vec::Vec<"):
            p = None
            for x in ([e] if e.k == "A" else e.a[1] or () if e.k == "P" else ()):
                if x.k == "A" and x.a[0] == RES and x.a[1] == 0:
                    p = q(x.a[2][0])
            if p is not None:
                return s, mk("P", (fr.key, site, "collect"), frozenset((mk("A", RES, 0, (p,)), mk("A", RES, 1, (fresh(it, s, fr, site, "err"),)))))
    r = it.note(fresh(it, s, fr, site, "r", name), itv, e)
    return s, r


def literal(it, st, itv):
    """Number of elements of a sequence over a literal array, or None."""
    if itv.k != "t":
        return None
    if itv.a[0] == "iter" and itv.a[1].k == "R":
        v = it.pointee(st, itv.a[1])
    elif itv.a[0] == "iterv":
        v = itv.a[1]
    elif itv.a[0] in ("map", "enum"):
        return literal(it, st, itv.a[1])
    else:
        return None
    return len(v.a[2]) if v.k == "A" and v.a[0] == "[]" and 1 < len(v.a[2]) <= 4 else None


def unroll(it, fr, st, itv, site, span):
    """(state, elements) of a sequence over a short literal array, its closures applied in turn; None if it is no such sequence."""
    n = literal(it, st, itv)
    if n is None:
        return None
    op = itv.a[0]
    if op == "iter":
        b = itv.a[1]
        return st, [mk("R", b.a[0], b.a[1] + (("i", K(j)),), b.a[2]) for j in range(n)]
    if op == "iterv":
        return st, list(itv.a[1].a[2])
    r = unroll(it, fr, st, itv.a[1], site + ("u",), span)
    if r is None:
        return None
    st, es = r
    if op == "enum":
        return st, [tup(K(j), e) for j, e in enumerate(es)]
    out = []
    for j, e in enumerate(es):
        q = it.call_closure(fr, st, itv.a[2], [e], site + ("u", j), span, None)
        if q is None:
            return None
        st, v = q
        out.append(v)
    return st, out


@model("std::iter::Iterator::reduce")
def it_reduce(it, fr, st, fn, args, argtys, site, span, retty):
    if it.obs.seqs:
        r = unroll(it, fr, st.copy(), args[0], site, span)
        if r is not None:
            st1, es = r
            acc = es[0]
            for j, e in enumerate(es[1:]):
                q = it.call_closure(fr, st1, args[1], [acc, e], site + ("rd", j), span, None)
                if q is None:
                    break
                st1, acc = q
            else:
                return st1, some(acc)
    return _hof(1)(it, fr, st, fn, args, argtys, site, span, retty)


def holds_ptr(v):
    """An array, a pointer into one, or a struct with such a field."""
    if v.k == "A":
        return v.a[0].endswith("::RumpyArray") or any(holds_ptr(x) for x in v.a[2])
    if v.k == "t":
        return v.a[0] in ("padd", "as", "f", "&", "*") and any(len(s.a) == 2 and s.a[1] == "buffer" for s in v.syms() if s.k == "u")
    return False


def pure_iter(v):
    if v.k == "A":
        return v.a[0] == "std::ops::Range"
    if v.k != "t":
        return False
    op = v.a[0]
    if op in ("iter", "iterv"):
        return True
    if op in ("enum", "zip"):
        return all(pure_iter(x) for x in v.a[1:])
    if op == "sel":
        return len(v.a) == 2 and pure_iter(v.a[1])
    return False


def seqterm(it, st, v):
    if v.k == "A":
        return v
    op = v.a[0]
    if op == "iter":
        return T("iter", snapkey(it, st, v.a[1]))
    if op == "iterv":
        return T("iter", T("&", v.a[1]))
    return T(op, *[seqterm(it, st, x) for x in v.a[1:]])


def _hof(nargs_elem):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        itv = args[0]
        if itv.k == "R":
            itv = it.pointee(st, itv)
        s0 = st.copy()
        s1, e = elem(it, fr, st, itv, site + ("el",), span)
        name = fn.get("res", fn["path"]).split("::")[-1]
        clo = args[-1]
        if name == "fold" and len(args) == 3 and it.obs.seqs:
            # the accumulator stays what it starts as when one step from there gives it back
            sa = s1.copy()
            r = it.call_closure(fr, sa, clo, [args[1], e], site + ("h0",), span, None)
            if r is not None and (r[1] is args[1] or snap(it, r[0], r[1]) is snap(it, s1, args[1])):
                s, _ = it.joinrets(fr, [(s0, UNIT), (r[0], UNIT)], site + ("hj0",))
                return s, args[1]
        if name in ("fold", "try_fold"):
            acc = fresh(it, s1, fr, site, "acc")
            cargs = [acc, e]
        elif name in ("find", "min_by_key", "max_by_key"):
            o = ("H", fr.key, site, "fe")
            s1.heap[o] = e
            cargs = [mk("R", o, (), 0)]
        elif name in ("max_by", "min_by"):
            o = ("H", fr.key, site, "fe")
            s1.heap[o] = e
            cargs = [mk("R", o, (), 0), mk("R", o, (), 0)]
        else:
            cargs = [e]
        outs = [(s0, UNIT)]
        r = it.call_closure(fr, s1, clo, cargs, site + ("h",), span, None)
        if r is not None:
            outs.append((r[0], UNIT))
        s, _ = it.joinrets(fr, outs, site + ("hj",))
        if retty == "()":
            return s, UNIT
        return s, it.note(fresh(it, s, fr, site, "r", name), itv, e, *([r[1]] if r is not None else []))
    return f


for n in ("any", "all", "fold", "for_each", "position", "find", "max_by", "min_by", "try_for_each", "find_map", "min_by_key", "max_by_key"):
    MODELS["std::iter::Iterator::" + n] = _hof(1)
    for ty in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::iter::Map<I, F> as std::iter::Iterator>::", "<std::iter::Enumerate<I> as std::iter::Iterator>::",
               "<std::iter::Map<B, I, F> as std::iter::Iterator>::", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::", "<std::iter::Rev<I> as std::iter::Iterator>::",
               "<std::iter::Zip<A, B> as std::iter::Iterator>::", "<std::iter::Cloned<I> as std::iter::Iterator>::", "<std::iter::Copied<I> as std::iter::Iterator>::"):
        MODELS[ty + n] = _hof(1)


@model("<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref")
def cow_deref(it, fr, st, fn, args, argtys, site, span, retty):
    a = it.resolve(st, args[0])
    v = it.pointee(st, a) if a.k == "R" else None
    if v is not None:
        v = it.resolve(st, v)
        alts = [v] if v.k == "A" else list(v.a[1]) if v.k == "P" and v.a[1] else []
        out = []
        for x in alts:
            if x.k != "A" or x.a[0] != "std::borrow::Cow":
                out = []
                break
            if x.a[1] == 0:
                out.append(x.a[2][0])
            else:
                out.append(mk("R", a.a[0], a.a[1] + (("d", 1), ("f", 0)), 0))
        if len(out) == 1:
            return st, out[0]
        if out:
            return st, it.note(mk("P", (fr.key, site, "cow"), frozenset(out)), *out)
    return st, it.note(fresh(it, st, fr, site, "r"), *[snap(it, st, x) for x in args])


@model("<std::ops::Range<Idx> as std::clone::Clone>::clone")
def range_clone(it, fr, st, fn, args, argtys, site, span, retty):
    return st, it.pointee(st, args[0])


@model("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::insert", "std::vec::Vec::<T, A>::extend_from_slice")
def vec_push(it, fr, st, fn, args, argtys, site, span, retty):
    a = args[0]
    if a.k == "R":
        v = fresh(it, st, fr, site, "vec")
        it.note(v, it.readp(st, a.a[0], a.a[1]), *[snap(it, st, x) for x in args[1:]])
        it.writep(fr, st, a.a[0], a.a[1], v, (fr.key, site))
    else:
        st.heap[("D", a)] = it.note(fresh(it, st, fr, site, "vec"), a, *[snap(it, st, x) for x in args[1:]])
    return st, UNIT


@model("std::vec::Vec::<T>::new")
def vec_new(it, fr, st, fn, args, argtys, site, span, retty):
    return st, mk("A", "[]", 0, ())


# comparisons of primitives through trait calls
def _cmp(op):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        ty = fn.get("path") and fn["args"][0]
        a, b = it.pointee(st, args[0]), it.pointee(st, args[1])
        a, b = it.known(st, a), it.known(st, b)
        return st, it.binop(st, op, a, b, ty)
    return f


for ity in list(INTW) + ["f32", "f64"]:
    for n, op in (("eq", "Eq"), ("ne", "Ne")):
        MODELS["std::cmp::impls::<impl std::cmp::PartialEq for %s>::%s" % (ity, n)] = _cmp(op)
    for n, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
        MODELS["std::cmp::impls::<impl std::cmp::PartialOrd for %s>::%s" % (ity, n)] = _cmp(op)


@model("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::impls::<impl std::cmp::Ord for usize>::max", "std::cmp::impls::<impl std::cmp::Ord for usize>::min",
       "std::cmp::max", "std::cmp::min", *["std::cmp::impls::<impl std::cmp::Ord for %s>::%s" % (t, n) for t in INTW for n in ("max", "min")])
def ord_minmax(it, fr, st, fn, args, argtys, site, span, retty):
    name = fn.get("res", fn["path"]).split("::")[-1]
    a, b = it.known(st, args[0]), it.known(st, args[1])
    if a.k == "k" and b.k == "k":
        return st, K(max(a.a[0], b.a[0]) if name == "max" else min(a.a[0], b.a[0]))
    if a.k == "cl" or b.k == "cl":
        ty = a.a[0] if a.k == "cl" else b.a[0]
        out = frozenset()
        pick = max if name == "max" else min
        for x in tocl(a, ty):
            for y in tocl(b, ty):
                (p, q), (r, s) = CLS.BYN[ty][x], CLS.BYN[ty][y]
                out |= CLS.iv(ty, pick(p, r), pick(q, s))
        return st, cl(ty, out)
    if a is b:
        return st, a
    x, y = order(a, b)
    return st, T("ord" + name, x, y)


@model("pyo3::Python::<'_>::with_gil", "pyo3::Python::<'_>::allow_threads", "pyo3::Python::<'py>::allow_threads")
def with_gil(it, fr, st, fn, args, argtys, site, span, retty):
    c = args[-1]
    return it.call_closure(fr, st, c, [fresh(it, st, fr, site, "py")], site, span, retty)


# ------------------------------------------------------------------ numbers known by class
def isnum(v):
    return v.k in ("cl", "fl") or (v.k == "P" and v.a[1] and all(x.k in ("cl", "fl") for x in v.a[1]))


def clret(it, fr, st, site, ty, s):
    return cl(ty, s)


def _fmath(ty, name):
    full = "std::%s::<impl %s>::%s" % (ty, ty, name)

    def f(it, fr, st, fn, args, argtys, site, span, retty):
        if any(isnum(a) for a in args) and all(a.k != "R" for a in args):
            if len(args) == 1:
                r = CLS.math1(ty, name, tocl(args[0], ty))
                if r is not None:
                    if name.startswith("is_"):
                        return st, cl("bool", frozenset(str(x) for x in r))
                    return st, cl(ty, r)
            elif len(args) == 2 and name == "powi":
                e = it.known(st, args[1])
                if e.k == "k" and -3 <= e.a[0] <= 3:
                    return st, cl(ty, CLS.math2(ty, "powf", tocl(args[0], ty), frozenset((CLS.of(ty, float(e.a[0])),))))
                return st, cl(ty, CLS.ALL[ty])
            elif len(args) == 2:
                r = CLS.math2(ty, name, tocl(args[0], ty), tocl(args[1], ty))
                if r is not None:
                    return st, cl(ty, r)
            elif name == "clamp":
                a = CLS.math2(ty, "max", tocl(args[0], ty) - {CLS.NAN}, tocl(args[1], ty))
                r = CLS.math2(ty, "min", a, tocl(args[2], ty)) if a else frozenset()
                return st, cl(ty, r | (tocl(args[0], ty) & {CLS.NAN}))
            elif name == "mul_add":
                a = CLS.binop(ty, "Mul", tocl(args[0], ty), tocl(args[1], ty))[0]
                return st, cl(ty, CLS.ALL[ty]) if len(a) > 1 else cl(ty, CLS.binop(ty, "Add", a, tocl(args[2], ty))[0])
            it.opaque[full] += 1
            return st, cl(ty, CLS.ALL[ty])
        return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
    return f


FM = list(CLS.MONO) + list(CLS.EVENF) + ["sin", "cos", "tan", "signum", "recip", "fract", "is_nan", "is_infinite", "is_finite", "is_sign_negative", "is_sign_positive",
                                         "max", "min", "maximum", "minimum", "copysign", "powf", "powi", "hypot", "atan2", "rem_euclid", "div_euclid", "clamp", "mul_add"]
for _ty in ("f64", "f32"):
    for _n in FM:
        for _pre in ("std::%s::<impl %s>::" % (_ty, _ty), "core::%s::<impl %s>::" % (_ty, _ty), "<%s as rustfft::num_traits::Float>::" % _ty, "std::num::<impl %s>::" % _ty):
            MODELS[_pre + _n] = _fmath(_ty, _n)
for _n in FM:
    MODELS["half::f16::" + _n] = _fmath("half::f16", _n)
    MODELS["half::binary16::f16::" + _n] = _fmath("half::f16", _n)


def _conv(frm, to):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        a = args[0]
        if isnum(a):
            return st, cl(to, CLS.cast(frm, to, tocl(a, frm)))
        return st, T("as", a, frm, to)
    return f


for _a, _b in (("f32", "f32"), ("f64", "f64")):
    MODELS["half::f16::from_" + _a] = _conv(_a, "half::f16")
    MODELS["half::f16::to_" + _a] = _conv("half::f16", _a)
    MODELS["<%s as std::convert::From<half::f16>>::from" % _a] = _conv("half::f16", _a)
for _a in list(INTW) + ["f32", "f64"]:
    for _b in list(INTW) + ["f32", "f64"]:
        if _a != _b:
            MODELS["std::convert::num::<impl std::convert::From<%s> for %s>::from" % (_a, _b)] = _conv(_a, _b)


def _bits(it, fr, st, fn, args, argtys, site, span, retty):
    path = fn.get("res", fn["path"])
    if isnum(args[0]):
        frm = "half::f16" if "f16" in path else "f32" if "f32" in path else "f64"
        u = {"half::f16": "u16", "f32": "u32", "f64": "u64"}[frm]
        to = u if path.endswith("to_bits") else frm
        return st, cl(to, CLS.ALL[to])
    return default_ext(it, fr, st, path, fn, args, argtys, site, span, retty)


for _n in ("to_bits", "from_bits"):
    for _p in ("core::f64::<impl f64>::", "core::f32::<impl f32>::", "half::f16::"):
        MODELS[_p + _n] = _bits


def _optrait(op, ty):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        a = [it.pointee(st, x) if x.k == "R" else x for x in args]
        if op == "Neg":
            return st, it.unop(st, "Neg", a[0], ty)
        return st, it.binop(st, op, a[0], a[1], ty)
    return f


for _ty in ("f32", "f64", "half::f16"):
    for _op, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("Neg", "neg")):
        MODELS["<%s as std::ops::%s>::%s" % (_ty, _op, _m)] = _optrait(_op, _ty)
for _n, _op in (("eq", "Eq"), ("ne", "Ne")):
    MODELS["<half::f16 as std::cmp::PartialEq>::" + _n] = None
for _n, _op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["<half::f16 as std::cmp::PartialOrd>::" + _n] = None


def _hcmp(op):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        a, b = it.pointee(st, args[0]), it.pointee(st, args[1])
        return st, it.binop(st, op, a, b, "half::f16")
    return f


for _n, _op in (("eq", "Eq"), ("ne", "Ne")):
    MODELS["<half::f16 as std::cmp::PartialEq>::" + _n] = _hcmp(_op)
for _n, _op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["<half::f16 as std::cmp::PartialOrd>::" + _n] = _hcmp(_op)

FLOATS_CONST = {"ZERO": 0.0, "ONE": 1.0, "NEG_ONE": -1.0}


def _partial_cmp(ty):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        a, b = it.pointee(st, args[0]), it.pointee(st, args[1])
        if isnum(a) or isnum(b):
            A, B = tocl(a, ty), tocl(b, ty)
            al = []
            for i, op in ((0, "Lt"), (1, "Eq"), (2, "Gt")):
                if 1 in CLS.compare(ty, op, A, B):
                    al.append(some(mk("A", "std::cmp::Ordering", i, ())))
            if CLS.NAN in A or CLS.NAN in B:
                al.append(NONE)
            if len(al) == 1:
                return st, al[0]
            p = it.mkphi((fr.key, site, "pc"), al)
            if p.k == "P":
                it.redefine(st, p)
            return st, p
        return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
    return f


for _ty in ("f32", "f64"):
    MODELS["std::cmp::impls::<impl std::cmp::PartialOrd for %s>::partial_cmp" % _ty] = _partial_cmp(_ty)
MODELS["<half::f16 as std::cmp::PartialOrd>::partial_cmp"] = _partial_cmp("half::f16")


def _iord(ty):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        a, b = it.known(st, it.pointee(st, args[0])), it.known(st, it.pointee(st, args[1]))
        opt = fn.get("res", fn["path"]).endswith("partial_cmp")
        if isnum(a) or isnum(b) or (a.k == "k" and b.k == "k"):
            A, B = tocl(a, ty), tocl(b, ty)
            al = [mk("A", "std::cmp::Ordering", i, ()) for i, op in ((0, "Lt"), (1, "Eq"), (2, "Gt")) if 1 in CLS.compare(ty, op, A, B)]
            if opt:
                al = [some(x) for x in al]
            p = it.mkphi((fr.key, site, "pc"), al)
            if p.k == "P":
                it.redefine(st, p)
            return st, p
        return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
    return f


for _ty in INTW:
    MODELS["std::cmp::impls::<impl std::cmp::Ord for %s>::cmp" % _ty] = _iord(_ty)
    MODELS["std::cmp::impls::<impl std::cmp::PartialOrd for %s>::partial_cmp" % _ty] = _iord(_ty)


def _imath(ty, name):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        a = [it.known(st, x) for x in args]
        if not any(x.k == "cl" for x in a) and not all(x.k == "k" for x in a):
            return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
        A = tocl(a[0], ty)
        full = frozenset((0, 1))
        if name in ("abs", "unsigned_abs", "signum", "checked_abs", "saturating_abs", "is_negative", "is_positive", "checked_neg"):
            ng = frozenset(c for c in A if CLS.BYN[ty][c][0] < 0)
            if name == "signum":
                out = frozenset(("0",)) & A
                out |= frozenset(("1",)) if any(CLS.BYN[ty][c][1] > 0 for c in A) else frozenset()
                out |= frozenset(("-1",)) if ng else frozenset()
                return st, cl(ty, out)
            if name in ("is_negative", "is_positive"):
                r = CLS.compare(ty, "Lt" if name == "is_negative" else "Gt", A, frozenset(("0",)))
                return st, cl("bool", frozenset(str(x) for x in r))
            mn = "min"
            if name == "abs":
                # debug and release differ at MIN: the result is MIN or a panic
                if mn in ng:
                    it.obs.on_panic(it, fr, st, "overflow in " + ty + "::abs", span)
                    ng = ng - {mn}
                    A = A - {mn}
                    if not A:
                        return None
                return st, cl(ty, (A - ng) | CLS.neg(ty, ng))
            if name == "unsigned_abs":
                u = "u" + ty[1:]
                out = frozenset()
                for c in A:
                    lo, hi = sorted(abs(x) for x in CLS.BYN[ty][c])
                    out |= CLS.iv(u, lo, hi)
                return st, cl(u, out)
            return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
        if len(a) < 2:
            return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
        bty = "u32" if name in ("wrapping_shl", "wrapping_shr", "pow", "wrapping_pow", "checked_shl", "checked_shr", "checked_pow", "saturating_pow", "overflowing_pow") else ty
        B = tocl(a[1], bty)
        base = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
        pre, _, op = name.partition("_")
        if pre in ("checked", "overflowing", "saturating") and op in ("add", "sub", "mul"):
            out, ov = CLS.binop(ty, base[op], A, B)
            if pre == "checked":
                al = ([some(cl(ty, out))] if 0 in ov else []) + ([NONE] if 1 in ov else [])
                p = it.mkphi((fr.key, site, "ck"), al)
                if p.k == "P":
                    it.redefine(st, p)
                return st, p
            if pre == "overflowing":
                return st, tup(cl(ty, out), cl("bool", frozenset(str(x) for x in ov)))
            return st, cl(ty, out | (frozenset((CLS.CL[ty][0][0], CLS.CL[ty][-1][0])) if 1 in ov else frozenset()))
        if pre == "checked" and op in ("div", "rem"):
            nz = frozenset(c for c in B if c != "0")
            al = [NONE] if "0" in B else []
            sg = CLS.INTW[ty][1]
            ok = frozenset()
            for x in A:
                for y in nz:
                    if sg and x == "min" and y == "-1":
                        if NONE not in al:
                            al.append(NONE)
                        continue
                    ok |= CLS.binop(ty, base[op], frozenset((x,)), frozenset((y,)))[0]
            if ok:
                al.append(some(cl(ty, ok)))
            p = it.mkphi((fr.key, site, "ck"), al)
            if p.k == "P":
                it.redefine(st, p)
            return st, p
        if pre == "checked" and op in ("shl", "shr"):
            w = CLS.INTW[ty][0]
            out, bad = frozenset(), False
            for y in B:
                lo, hi = CLS.BYN["u32"][y]
                if hi >= w:
                    bad = True
                if lo < w:
                    for x in A:
                        out |= CLS._shift(ty, "wrapping_" + op, x, lo, min(hi, w - 1))
            al = ([some(cl(ty, out))] if out else []) + ([NONE] if bad else [])
            p = it.mkphi((fr.key, site, "ck"), al)
            if p.k == "P":
                it.redefine(st, p)
            return st, p
        if pre == "checked" and op == "pow":
            r = CLS.imath2(ty, "pow", A, B, "u32")
            al = ([some(cl(ty, r[0]))] if r[0] else []) + ([NONE] if r[1] else [])
            p = it.mkphi((fr.key, site, "ck"), al)
            if p.k == "P":
                it.redefine(st, p)
            return st, p
        r = CLS.imath2(ty, name, A, B, bty)
        if r is None:
            return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
        if r[1]:
            it.obs.on_panic(it, fr, st, "division by zero or overflow in %s::%s" % (ty, name), span)
        if not r[0]:
            return None
        return st, cl(ty, r[0])
    return f


for _ty in INTW:
    if _ty in ("bool", "char"):
        continue
    for _n in ("abs", "unsigned_abs", "signum", "is_negative", "is_positive", "div_euclid", "rem_euclid", "wrapping_div", "wrapping_rem", "wrapping_div_euclid", "wrapping_rem_euclid",
               "wrapping_shl", "wrapping_shr", "pow", "wrapping_pow", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "checked_shl", "checked_shr", "checked_pow",
               "overflowing_add", "overflowing_sub", "overflowing_mul", "saturating_add", "saturating_sub", "saturating_mul"):
        MODELS["core::num::<impl %s>::%s" % (_ty, _n)] = _imath(_ty, _n)


CPX = "num_complex::Complex"


@model("num_complex::Complex::<T>::new")
def complex_new(it, fr, st, fn, args, argtys, site, span, retty):
    return st, mk("A", CPX, 0, (args[0], args[1]))


def cparts(it, st, v):
    return it.field(st, v, 0), it.field(st, v, 1)


def ctype(fn):
    for a in fn.get("res_args", fn["args"]):
        if a in ("f32", "f64"):
            return a
        if "Complex<f32>" in a:
            return "f32"
        if "Complex<f64>" in a:
            return "f64"
    return None


def _cop(op):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        ty = ctype(fn)
        if ty is None:
            return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
        B = lambda o, x, y: it.binop(st, o, x, y, ty)
        a, b = cparts(it, st, args[0])
        if op == "Neg":
            return st, mk("A", CPX, 0, (it.unop(st, "Neg", a, ty), it.unop(st, "Neg", b, ty)))
        rhs = args[1]
        if rhs.k == "R":
            rhs = it.pointee(st, rhs)
        c, d = cparts(it, st, rhs)
        if op in ("Add", "Sub"):
            return st, mk("A", CPX, 0, (B(op, a, c), B(op, b, d)))
        if op == "Mul":
            return st, mk("A", CPX, 0, (B("Sub", B("Mul", a, c), B("Mul", b, d)), B("Add", B("Mul", a, d), B("Mul", b, c))))
        n = B("Add", B("Mul", c, c), B("Mul", d, d))
        re = B("Add", B("Mul", a, c), B("Mul", b, d))
        im = B("Sub", B("Mul", b, c), B("Mul", a, d))
        return st, mk("A", CPX, 0, (B("Div", re, n), B("Div", im, n)))
    return f


for _op, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Neg", "neg")):
    MODELS["<num_complex::Complex<T> as std::ops::%s>::%s" % (_op, _m)] = _cop(_op)


def _cscal(op):
    def f(it, fr, st, fn, args, argtys, site, span, retty):
        ty = ctype(fn)
        if ty is None:
            return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
        a, b = cparts(it, st, args[0])
        c = args[1]
        if op in ("Add", "Sub"):
            return st, mk("A", CPX, 0, (it.binop(st, op, a, c, ty), b))
        return st, mk("A", CPX, 0, (it.binop(st, op, a, c, ty), it.binop(st, op, b, c, ty)))
    return f


for _op, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div")):
    MODELS["<num_complex::Complex<T> as std::ops::%s<T>>::%s" % (_op, _m)] = _cscal(_op)


@model("num_complex::Complex::<T>::norm_sqr", "num_complex::Complex::<T>::norm", "num_complex::Complex::<T>::arg", "num_complex::Complex::<T>::conj",
       "num_complex::Complex::<T>::is_nan", "num_complex::Complex::<T>::is_infinite", "num_complex::Complex::<T>::is_finite")
def complex_scalar(it, fr, st, fn, args, argtys, site, span, retty):
    ty = ctype(fn)
    name = fn.get("res", fn["path"]).split("::")[-1]
    v = args[0]
    if v.k == "R":
        v = it.pointee(st, v)
    a, b = cparts(it, st, v)
    if ty is None or not (isnum(a) or isnum(b)):
        return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
    A, B = tocl(a, ty), tocl(b, ty)
    if name == "norm_sqr":
        return st, it.binop(st, "Add", it.binop(st, "Mul", a, a, ty), it.binop(st, "Mul", b, b, ty), ty)
    if name == "norm":
        return st, cl(ty, CLS.math2(ty, "hypot", A, B))
    if name == "arg":
        return st, cl(ty, CLS.math2(ty, "atan2", B, A))
    if name == "conj":
        return st, mk("A", CPX, 0, (a, it.unop(st, "Neg", b, ty)))
    x, y = CLS.math1(ty, name, A), CLS.math1(ty, name, B)
    if name == "is_finite":
        r = frozenset(p & q for p in x for q in y)
    elif name == "is_nan":
        r = frozenset(p | q for p in x for q in y)
    else:
        na, nb = CLS.math1(ty, "is_nan", A), CLS.math1(ty, "is_nan", B)
        r = frozenset((p | q) & (1 - m) & (1 - n) for p in x for q in y for m in na for n in nb)
    return st, cl("bool", frozenset(str(p) for p in r))


@model("<num_complex::Complex<T> as std::cmp::PartialEq>::eq", "<num_complex::Complex<T> as std::cmp::PartialEq>::ne")
def complex_eq(it, fr, st, fn, args, argtys, site, span, retty):
    ty = ctype(fn)
    a, b = cparts(it, st, it.pointee(st, args[0]))
    c, d = cparts(it, st, it.pointee(st, args[1]))
    if ty is None:
        return default_ext(it, fr, st, fn.get("res", fn["path"]), fn, args, argtys, site, span, retty)
    r = it.binop(st, "BitAnd", it.binop(st, "Eq", a, c, ty), it.binop(st, "Eq", b, d, ty), "bool")
    if fn.get("res", fn["path"]).endswith("ne"):
        r = it.unop(st, "Not", r, "bool")
    return st, r
