"""Models of strings with known contents and of hash maps and sets with known keys, for the shape analysis (geom)."""
from geom import *
import geom
from geom import g, lit, vec, isvec, seq, place_vec, setvec, some, NONE, apply, advance, truth, refobj, bounds
from geom import NI

MAP = "{map}"


def sval(it, st, v):
    """The Python string of a known string value, or None."""
    v = it.resolve(st, v)
    for _ in range(6):
        if v.k == "R" or v.k == "t" and v.a[0] == "&":
            v = it.resolve(st, it.pointee(st, v))
        else:
            break
    return v.a[0] if v.k == "str" else None


def cval(it, st, v):
    v = it.resolve(st, v)
    for _ in range(4):
        if v.k == "R":
            v = it.resolve(st, it.pointee(st, v))
    v = it.known(st, v)
    return chr(v.a[0]) if v.k == "k" and v.a[0].__class__ is int and 0 <= v.a[0] < 0x110000 else None


def pattern(it, st, v, ty):
    """A constant string or character used as a pattern."""
    s = sval(it, st, v)
    if s is not None:
        return s
    return cval(it, st, v) if "char" in (ty or "") and "str" not in (ty or "") else None


def S_(s):
    return mk("str", s)


ST = ("core::str::<impl str>::", "std::str::<impl str>::")


def sg(*names):
    return g(*[p + n for p in ST for n in names])


@sg("trim", "trim_start", "trim_end")
def s_trim(it, fr, st, fn, args, argtys, site, span, retty):
    s = sval(it, st, args[0])
    if s is None:
        return NI
    n = fn["path"].rsplit("::", 1)[-1]
    return st, S_(s.strip() if n == "trim" else s.lstrip() if n == "trim_start" else s.rstrip())


@sg("starts_with", "ends_with", "contains", "find", "rfind", "split", "strip_prefix", "strip_suffix", "trim_start_matches", "trim_end_matches", "split_once")
def s_pat(it, fr, st, fn, args, argtys, site, span, retty):
    s = sval(it, st, args[0])
    n = fn["path"].rsplit("::", 1)[-1]
    p = pattern(it, st, args[1], argtys[1] if argtys and len(argtys) > 1 else None)
    if p is None and s is not None and cval(it, st, args[1]) is not None and any(a == "char" for a in fn.get("res_args", fn.get("args", ()))):
        p = cval(it, st, args[1])
    if s is None or p is None or not s.isascii():
        return NI
    if n == "starts_with":
        return st, K(int(s.startswith(p)))
    if n == "ends_with":
        return st, K(int(s.endswith(p)))
    if n == "contains":
        return st, K(int(p in s))
    if n in ("find", "rfind"):
        i = s.find(p) if n == "find" else s.rfind(p)
        return st, some(K(i)) if i >= 0 else NONE
    if n == "split":
        return (st, lit(*[S_(x) for x in s.split(p)])) if p else NI
    if n == "strip_prefix":
        return st, some(S_(s[len(p):])) if s.startswith(p) else NONE
    if n == "strip_suffix":
        return st, some(S_(s[:len(s) - len(p)])) if s.endswith(p) else NONE
    if n == "split_once":
        if p not in s:
            return st, NONE
        a, b = s.split(p, 1)
        return st, some(tup(S_(a), S_(b)))
    while p and (s.startswith(p) if n == "trim_start_matches" else s.endswith(p)):
        s = s[len(p):] if n == "trim_start_matches" else s[:-len(p)]
    return st, S_(s)


@g("core::str::<impl str>::is_empty", "core::str::<impl str>::len", "std::string::String::len", "std::string::String::is_empty")
def s_len(it, fr, st, fn, args, argtys, site, span, retty):
    s = sval(it, st, args[0])
    if s is None:
        return NI
    return st, K(len(s.encode())) if fn["path"].endswith("len") else K(int(not s))


@g("core::str::<impl str>::chars", "core::str::<impl str>::char_indices", "core::str::<impl str>::bytes")
def s_chars(it, fr, st, fn, args, argtys, site, span, retty):
    s = sval(it, st, args[0])
    if s is None or not s.isascii() or len(s) > 200:
        return NI
    if "indices" in fn["path"]:
        return st, lit(*[tup(K(i), K(ord(c))) for i, c in enumerate(s)])
    return st, lit(*[K(ord(c)) for c in s])


for _n in ("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next", "<std::str::Split<'a, P> as std::iter::Iterator>::next", "<std::str::Bytes<'_> as std::iter::Iterator>::next"):
    GM[_n] = geom.g_next(False)
GM["<std::str::Chars<'a> as std::iter::Iterator>::count"] = GM["std::iter::Iterator::count"]


@g("core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index")
def s_index(it, fr, st, fn, args, argtys, site, span, retty):
    s = sval(it, st, args[0])
    if s is None or not s.isascii():
        return NI
    b = bounds(it, st, args[1], len(s))
    if b is None or not 0 <= b[0] <= b[1] <= len(s):
        return NI
    return st, S_(s[b[0]:b[1]])


@g("<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "<std::string::String as std::clone::Clone>::clone", "<std::string::String as std::convert::AsRef<str>>::as_ref", "<str as std::string::ToString>::to_string",
   "std::str::<impl std::borrow::ToOwned for str>::to_owned", "std::str::<impl str>::to_string")
def s_same(it, fr, st, fn, args, argtys, site, span, retty):
    s = sval(it, st, args[0])
    return NI if s is None else (st, S_(s))


def _char(name, f):
    @g(*["%s%s" % (p, name) for p in ("std::char::methods::<impl char>::", "core::char::methods::<impl char>::")])
    def h(it, fr, st, fn, args, argtys, site, span, retty):
        c = cval(it, st, args[0])
        return NI if c is None or ord(c) > 127 else (st, K(int(f(c))))


for _n, _f in (("is_whitespace", str.isspace), ("is_ascii_lowercase", str.islower), ("is_ascii_uppercase", str.isupper), ("is_alphabetic", str.isalpha), ("is_ascii_alphabetic", str.isalpha), ("is_ascii_digit", str.isdigit), ("is_numeric", str.isdigit), ("is_alphanumeric", str.isalnum)):
    _char(_n, _f)


# ------------------------------------------------------------------ hash maps and sets with known keys
def ckey(it, st, v, d=0):
    """A hashable key of a value that is wholly known, or None."""
    v = it.resolve(st, v)
    for _ in range(4):
        if v.k == "R":
            v = it.resolve(st, it.pointee(st, v))
    v = it.known(st, v)
    if v.k == "k":
        return ("k", v.a[0])
    if v.k == "str":
        return ("s", v.a[0])
    if v.k == "A" and d < 5:
        xs = tuple(ckey(it, st, x, d + 1) for x in v.a[2])
        return None if None in xs else (v.a[0], v.a[1]) + xs
    return None


def amap(it, st, a):
    """(reference, [k, v, ...]) of a map."""
    a = it.resolve(st, a)
    for _ in range(4):
        if a.k == "R":
            v = it.resolve(st, it.readp(st, a.a[0], a.a[1]))
            if v.k == "R":
                a = v
                continue
            if v.k == "A" and v.a[0] == MAP:
                return a, list(v.a[2])
            if v.k == "A" and len(v.a[2]) == 1 and v.a[0].endswith("HashSet"):
                return None, None
        elif a.k == "A" and a.a[0] == MAP:
            return None, list(a.a[2])
        break
    return None, None


def locate(it, st, kv, key):
    k = ckey(it, st, key)
    if k is None:
        return None
    ks = [ckey(it, st, kv[i]) for i in range(0, len(kv), 2)]
    if None in ks:
        return None
    return ks.index(k) if k in ks else -1


HM = "std::collections::HashMap::<K, V, S, A>::"
HS = "std::collections::HashSet::<T, S, A>::"


@g("std::collections::HashMap::<K, V>::new", "std::collections::HashSet::<T>::new", "std::collections::HashMap::<K, V>::with_capacity", "std::collections::HashSet::<T>::with_capacity", "<std::collections::HashMap<K, V, S> as std::default::Default>::default",
   "<std::collections::HashSet<T, S> as std::default::Default>::default", "std::collections::BTreeMap::<K, V>::new")
def m_new(it, fr, st, fn, args, argtys, site, span, retty):
    return st, mk("A", MAP, 0, ())


@g(HM + "insert", HS + "insert")
def m_insert(it, fr, st, fn, args, argtys, site, span, retty):
    a, kv = amap(it, st, args[0])
    if kv is None or a is None:
        return NI
    key = it.resolve(st, args[1])
    i = locate(it, st, kv, key)
    if i is None:
        return NI
    isset = len(args) == 2
    if i < 0:
        kv += [key, UNIT if isset else args[2]]
        it.writep(fr, st, a.a[0], a.a[1], mk("A", MAP, 0, tuple(kv)), (fr.key, site))
        return st, K(1) if isset else NONE
    if isset:
        return st, K(0)
    old = kv[2 * i + 1]
    kv[2 * i + 1] = args[2]
    it.writep(fr, st, a.a[0], a.a[1], mk("A", MAP, 0, tuple(kv)), (fr.key, site))
    return st, some(old)


def valref(a, kv, i, st, it, fr, site):
    if a is not None:
        return mk("R", a.a[0], a.a[1] + (("f", 2 * i + 1),), a.a[2])
    return refobj(it, fr, st, kv[2 * i + 1], site)


@g(HM + "get", HM + "get_mut", HM + "contains_key", HS + "contains", "<std::collections::HashMap<K, V, S, A> as std::ops::Index<&Q>>::index", HS + "get")
def m_get(it, fr, st, fn, args, argtys, site, span, retty):
    a, kv = amap(it, st, args[0])
    if kv is None:
        return NI
    i = locate(it, st, kv, args[1])
    if i is None:
        return NI
    n = fn.get("res", fn["path"]).rsplit("::", 1)[-1]
    if n in ("contains", "contains_key"):
        return st, K(int(i >= 0))
    if n == "index":
        return NI if i < 0 else (st, valref(a, kv, i, st, it, fr, site))
    return st, NONE if i < 0 else some(valref(a, kv, i, st, it, fr, site))


@g(HM + "len", HS + "len", HM + "is_empty", HS + "is_empty")
def m_len(it, fr, st, fn, args, argtys, site, span, retty):
    a, kv = amap(it, st, args[0])
    if kv is None:
        return NI
    return st, K(len(kv) // 2) if fn["path"].endswith("len") else K(int(not kv))


@g(HM + "entry")
def m_entry(it, fr, st, fn, args, argtys, site, span, retty):
    a, kv = amap(it, st, args[0])
    if kv is None or a is None:
        return NI
    return st, mk("t", "entry", a, it.resolve(st, args[1]))


@g("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "std::collections::hash_map::Entry::<'a, K, V>::or_insert", "std::collections::hash_map::Entry::<'a, K, V, A>::or_default")
def m_or_insert(it, fr, st, fn, args, argtys, site, span, retty):
    e = it.resolve(st, args[0])
    if e.k != "t" or e.a[0] != "entry":
        return NI
    a, kv = amap(it, st, e.a[1])
    if kv is None or a is None:
        return NI
    i = locate(it, st, kv, e.a[2])
    if i is None or i < 0 and len(args) < 2:
        return NI
    if i < 0:
        kv += [e.a[2], args[1]]
        i = len(kv) // 2 - 1
        it.writep(fr, st, a.a[0], a.a[1], mk("A", MAP, 0, tuple(kv)), (fr.key, site))
    return st, mk("R", a.a[0], a.a[1] + (("f", 2 * i + 1),), 1)


@g(HM + "iter", HM + "keys", HM + "values", HS + "iter", HM + "into_keys", HM + "into_values", "<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter", "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
   "<std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter", "<&'a std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter")
def m_iter(it, fr, st, fn, args, argtys, site, span, retty):
    """The order is unspecified: the models of collect and sort below give it a meaning only where it does not matter."""
    a, kv = amap(it, st, args[0])
    if kv is None:
        return NI
    n = fn.get("res", fn["path"]).rsplit("::", 1)[-1]
    owned = "into" in n and a is None
    out = []
    for i in range(0, len(kv), 2):
        k = kv[i] if owned or a is None else mk("R", a.a[0], a.a[1] + (("f", i),), 0)
        v = kv[i + 1] if owned or a is None else mk("R", a.a[0], a.a[1] + (("f", i + 1),), 0)
        isset = "HashSet" in fn["path"] or kv[i + 1] is UNIT
        out.append(k if "keys" in n or isset else v if "values" in n else tup(k, v))
    return st, lit(*out)


@g(HS + "is_disjoint", HS + "is_subset", HS + "is_superset", "<std::collections::HashSet<T, S, A> as std::cmp::PartialEq>::eq")
def m_setop(it, fr, st, fn, args, argtys, site, span, retty):
    _, x = amap(it, st, args[0])
    _, y = amap(it, st, args[1])
    if x is None or y is None:
        return NI
    x, y = [[ckey(it, st, kv[i]) for i in range(0, len(kv), 2)] for kv in (x, y)]
    if None in x or None in y:
        return NI
    x, y = set(x), set(y)
    n = fn.get("res", fn["path"]).rsplit("::", 1)[-1]
    return st, K(int(x.isdisjoint(y) if n == "is_disjoint" else x <= y if n == "is_subset" else x >= y if n == "is_superset" else x == y))


_collect = GM["std::iter::Iterator::collect"]


@g("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(it, fr, st, fn, args, argtys, site, span, retty):
    if not retty:
        return _collect(it, fr, st, fn, args, argtys, site, span, retty)
    if retty.startswith(("std::collections::HashSet<", "std::collections::HashMap<")):
        s = seq(it, st, args[0])
        if s is None:
            return NI
        isset = retty.startswith("std::collections::HashSet<")
        kv, ks = [], []
        for e in s:
            e = it.resolve(st, e)
            k, v = (e, UNIT) if isset else (it.field(st, e, 0), it.field(st, e, 1))
            q = ckey(it, st, k)
            if q is None:
                return NI
            if isset and k.k == "R" and not retty.startswith("std::collections::HashSet<&"):
                k = it.resolve(st, it.pointee(st, k))
            if q in ks:
                if not isset:
                    kv[2 * ks.index(q) + 1] = v
            else:
                ks.append(q)
                kv += [k, v]
        return st, mk("A", MAP, 0, tuple(kv))
    if retty == "std::string::String":
        s = seq(it, st, args[0])
        if s is None:
            return NI
        out = ""
        for e in s:
            x = sval(it, st, e)
            if x is None:
                x = cval(it, st, e)
            if x is None:
                return NI
            out += x
        return st, S_(out)
    return _collect(it, fr, st, fn, args, argtys, site, span, retty)
