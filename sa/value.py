"""Value classes an operation stores into its result, as a function of the classes of its operands' elements.

Two passes.  First the operation is interpreted once per operand dtype with opaque elements (elem.Elem): every
store into the result becomes a term over "the element of operand 0", "the element of operand 1".  Then the term is
evaluated on classes; scalar functions in it are interpreted on classes.  Where a stored value depends on branches
outside scalar functions, the whole operation is interpreted again with classes as elements."""
import sys
from elem import *
from dt import run_arrays
import classes as CLS

CX = {"num_complex::Complex<f32>": "f32", "num_complex::Complex<f64>": "f64"}
CSZ = {"f32": 4, "f64": 8}
_loops = {}


def loops_of(inst):
    """block -> identification of the innermost loop it belongs to (None outside loops)."""
    key = id(inst["blocks"])
    r = _loops.get(key)
    if r is not None:
        return r[0]
    blocks = inst["blocks"]
    sc = {i: list(succ(b["t"])) for i, b in enumerate(blocks)}
    out = {}

    def go(nodes, tag):
        for comp in scc(nodes, sc):
            if len(comp) == 1:
                n = next(iter(comp))
                if n not in sc[n]:
                    out.setdefault(n, tag)
                    continue
            t = (tag or ()) + (min(comp),)
            for n in comp:
                out[n] = t
            # header: a block entered from outside
            heads = [n for n in comp if any(n in sc[m] for m in range(len(blocks)) if m not in comp)] or [min(comp)]
            rest = comp - set(heads)
            if rest:
                sub = {}
                go2(rest, t, sub)
                out.update(sub)

    def go2(nodes, tag, sub):
        for comp in scc(nodes, sc):
            if len(comp) == 1:
                n = next(iter(comp))
                if n not in sc[n]:
                    continue
            t = tag + (min(comp),)
            for n in comp:
                sub[n] = t
            heads = [n for n in comp if any(n in sc[m] for m in nodes if m not in comp)] or [min(comp)]
            rest = comp - set(heads)
            if rest:
                go2(rest, t, sub)

    go(set(range(len(blocks))), None)
    _loops[key] = (out, blocks)
    return out


def scc(nodes, sc):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
    for root_ in nodes:
        if root_ in idx:
            continue
        work = [(root_, iter([m for m in sc[root_] if m in nodes]))]
        idx[root_] = low[root_] = n[0]; n[0] += 1
        st.append(root_); on.add(root_)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter([m for m in sc[w] if m in nodes])))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop(); on.discard(w); c.add(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def group(fr):
    """Identification of the loop a store is executed by."""
    f = fr
    while f is not None:
        l = loops_of(f.inst).get(f.bb)
        if l is not None:
            return (f.key, l, f.path)
        if f.inst.get("closure"):
            return (f.key, (), f.path)
        if f.parent is None:
            return (f.key, (), f.path)
        f = f.parent


def fresh_buffer(p):
    """Does the pointer lead into a byte buffer made during the operation?"""
    stack, n = [p], 0
    while stack and n < 400:
        n += 1
        v = stack.pop()
        if v.k == "t" and v.a[0] == "call" and "from_elem" in str(v.a[1]):
            return True
        for x in v.a:
            if isinstance(x, Val):
                stack.append(x)
            elif isinstance(x, tuple):
                stack += [y for y in x if isinstance(y, Val)]
    return False


def component(ptr, sz):
    """0 or 1: the half of a complex number an address ends in."""
    v = ptr
    while v.k == "t" and v.a[0] == "as":
        v = v.a[1]
    if v.k == "t" and v.a[0] == "padd":
        n, s = v.a[2], v.a[3]
        s = s.a[0] if isinstance(s, Val) else s
        if n.k == "k" and n.a[0] * s == sz:
            return 1
        if n.k == "t" and n.a[0] == "Add" and any(isinstance(x, Val) and x.k == "k" and x.a[0] * s == sz for x in n.a[1:3]):
            return 1
    return 0


class VElem(Elem):
    def on_store(self, it, fr, st, ptr, ty, val, span):
        self.stores.append((ptr, (), ty, val, group(fr), span))

    def on_write(self, it, fr, st, obj, projs, val, span):
        if obj[0] == "D":
            self.stores.append((obj[1], projs, None, val, group(fr), span))


class ClassRun(VElem):
    """Elements are classes."""

    def __init__(self, ev, env):
        VElem.__init__(self, ev.D)
        self.ev, self.env = ev, env

    def load_val(self, it, st, ptr, ty):
        r = root(ptr)
        if r is None or (ty is None and not (ptr.k == "t" and ptr.a[0] in ("padd", "rawslice", "vslice", "as"))):
            return None
        return self.ev.elem(r, self.env, ptr, ty)

    def on_invoke(self, it, fr, st, inst, args, span):
        p = inst["path"]
        if fr is not None and p in ("rumpy::array::RumpyArray::astype", "rumpy::array::RumpyArray::copy"):
            return VElem.on_invoke(self, it, fr, st, inst, args, span)
        return None


class Un(Exception):
    """Not evaluable."""


class Panic(Exception):
    pass


class Ev:
    """Evaluator for one program."""

    def __init__(self, prog, D):
        self.p, self.D = prog, D
        self.sc = {}
        self.conv = {}
        self.dts = {}
        self.terms = {}

    # -------------------------------------------------------------- elements
    def elem(self, r, env, ptr, ty):
        """Element of a symbolic array (operand or derived) in the environment."""
        try:
            v = self.value_of(r, env)
        except Un:
            return None
        dn = self.dts_of(r)
        if dn in CX_D:
            ct = CX_D[dn]
            if ty is None or ty in CX:
                return v
            if ty == ct:
                return v.a[2][component(ptr, CSZ[ct])]
            return None
        if ty is not None and ty != RUST.get(dn) and not (dn == "bool" and ty in ("u8", "bool")) and not (dn.startswith(("datetime", "timedelta")) and ty == "i64"):
            return None
        return v

    def dts_of(self, r):
        base, *ch = r.split("@")
        d = self.dts[base]
        for c in ch:
            if c != "copy":
                d = c
        return d

    def value_of(self, r, env):
        if r in env:
            return env[r]
        if "@" not in r:
            raise Un(r)
        b, c = r.rsplit("@", 1)
        v = self.value_of(b, env)
        if c != "copy" and c != self.dts_of(b):
            v = self.convert(self.dts_of(b), c, v)
        env[r] = v
        return v

    def convert(self, src, dst, v):
        """astype's effect on an element class."""
        k = (src, dst, v)
        r = self.conv.get(k)
        if r is None:
            fn = self.p.one("rumpy::array::RumpyArray::astype")
            r = self.apply(("astype", dst), fn, [src], {"arr0": v}, dst, pre=None, extra=[self.D.val[dst]])
            out = self.whole(r)
            r = self.conv[k] = out if out is not None else False
        if r is False:
            raise Un("astype")
        return r

    def whole(self, r):
        """The element all groups of stores can leave, None if undecided."""
        parts = {}
        for (g, c), x in r.items():
            if x is None or x == "panic":
                return None
            parts.setdefault(c, []).append(x)
        out = {}
        for c, xs in parts.items():
            v = xs[0]
            for x in xs[1:]:
                v = self.join(v, x)
            out[c] = v
        if 0 in out or 1 in out:
            if not (0 in out and 1 in out):
                return None
            z = mk("A", CPX, 0, (out[0], out[1]))
            return self.join(out[None], z) if None in out else z
        return out.get(None)

    def join(self, a, b):
        if a is b:
            return a
        if a.k == "A" and b.k == "A":
            return mk("A", a.a[0], a.a[1], tuple(self.join(x, y) for x, y in zip(a.a[2], b.a[2])))
        for x, y in ((a, b), (b, a)):
            if x.k == "cl":
                return cl(x.a[0], x.a[1] | tocl(y, x.a[0]))
        if a.k == "k" and b.k == "k":
            for ty in ("i64", "u64"):
                lo, hi = min(a.a[0], b.a[0]), max(a.a[0], b.a[0])
                if CLS.CL[ty][0][1] <= lo and hi <= CLS.CL[ty][-1][2]:
                    return cl(ty, frozenset((CLS.of(ty, lo), CLS.of(ty, hi))))
        raise Un("join")

    # -------------------------------------------------------------- terms
    def ev(self, v, env, memo):
        r = memo.get(v)
        if r is None:
            r = memo[v] = self._ev(v, env, memo)
        return r

    def _ev(self, v, env, memo):
        k = v.k
        if k in ("k", "cl"):
            return v
        if k == "fl":
            ty = v.a[0].strip("'")
            return cl(ty, frozenset((CLS.of(ty, CLS.fbits(ty, v.a[1])),)))
        if k == "A":
            return mk("A", v.a[0], v.a[1], tuple(self.ev(x, env, memo) for x in v.a[2]))
        if k == "P":
            if v.a[1] is None:
                raise Un("phi")
            out = None
            for x in sorted(v.a[1], key=show):
                y = self.ev(x, env, memo)
                out = y if out is None else self.join(out, y)
            return out
        if k != "t":
            raise Un("sym")
        op = v.a[0]
        if op == "ld":
            r = root(v.a[1])
            if r is None:
                raise Un("load")
            x = self.elem(r, env, v.a[1], v.a[2])
            if x is None:
                raise Un("load")
            return x
        if op in ("idx", "*"):
            q = v.a[1]
            if op == "idx" and q.k == "t" and q.a[0] == "*" and q.a[1].k == "t" and q.a[1].a[0] in ("rawslice", "vslice"):
                q = q.a[1]
            r = root(q)
            if r is None:
                raise Un("load")
            x = self.elem(r, env, q, q.a[3] if q.k == "t" and q.a[0] == "rawslice" else None)
            if x is None:
                raise Un("load")
            return x
        if op == "f":
            x = self.ev(v.a[1], env, memo)
            i = v.a[2]
            i = i.a[0] if isinstance(i, Val) else i
            if x.k == "A" and isinstance(i, int):
                return x.a[2][i]
            raise Un("field")
        if op == "sfn":
            args = tuple(self.ev(a, env, memo) if not _fnlike(a) else a for a in v.a[2:])
            return self.scalar(v.a[1], args)
        it = Interp(self.p)
        st = State((), {}, {})
        if op == "as":
            x = self.ev(v.a[1], env, memo)
            frm, to = v.a[2], v.a[3]
            if to in CLS.ALL and frm in CLS.ALL:
                r = CLS.cast(frm, to, tocl(x, frm))
                return cl(to, r if r is not None else CLS.ALL[to])
            raise Un("cast")
        if op in ("fEq", "fNe", "fLt", "fLe", "fGt", "fGe") or op in ("Eq", "Lt"):
            a, b = self.ev(v.a[1], env, memo), self.ev(v.a[2], env, memo)
            ty = a.a[0] if a.k == "cl" else b.a[0] if b.k == "cl" else None
            if ty is None:
                raise Un("cmp")
            return it.clbin(op.replace("f", "", 1) if op[0] == "f" else op, a, b, ty)
        if op in ("ordmax", "ordmin"):
            a, b = self.ev(v.a[1], env, memo), self.ev(v.a[2], env, memo)
            ty = a.a[0] if a.k == "cl" else b.a[0] if b.k == "cl" else None
            if ty is None or ty in CLS.FL:
                raise Un("max")
            pick = max if op == "ordmax" else min
            out = frozenset()
            for x in tocl(a, ty):
                for y in tocl(b, ty):
                    (al, ah), (bl, bh) = CLS.BYN[ty][x], CLS.BYN[ty][y]
                    out |= CLS.iv(ty, pick(al, bl), pick(ah, bh))
            return cl(ty, out)
        if op == "Not":
            x = self.ev(v.a[1], env, memo)
            if x.k == "k":
                return K(1 - x.a[0])
            if x.k == "cl" and x.a[0] == "bool":
                return cl("bool", frozenset(str(1 - int(c)) for c in x.a[1]))
            raise Un("not")
        if len(v.a) == 4 and isinstance(v.a[3], str) and v.a[3] in CLS.ALL:
            a, b = self.ev(v.a[1], env, memo), self.ev(v.a[2], env, memo)
            return it.clbin(op, a, b, v.a[3]) if (a.k == "cl" or b.k == "cl") else it.binop(st, op, a, b, v.a[3])
        raise Un("term " + str(op))

    def scalar(self, iid, args):
        k = (iid, args)
        r = self.sc.get(k)
        if r is None:
            o = Pan()
            it = Interp(self.p, o)
            res = it.run(self.p.insts[iid], list(args))
            if res is None:
                r = ("panic", o.panics)
            else:
                r = ("ok", res[1], o.panics)
            self.sc[k] = r
        self.cur_panics += r[-1]
        if r[0] == "panic":
            raise Panic()
        return r[1]

    # -------------------------------------------------------------- operations
    def apply(self, name, fn, dts, env, rdt, pre=(), extra=(), args=None, outs=()):
        """{group: class value or None (undecided) or 'panic'} of the stores into the result."""
        tk = (name, tuple(dts))
        tm = self.terms.get(tk)
        if tm is None:
            o = VElem(self.D)
            saved = self.dts
            it, r = run_arrays(self.p, self.D, fn, dts, list(extra), pre or (), obs=o, args=args)
            tm = self.terms[tk] = (self.gather(o.stores, rdt, outs), sorted(set((p, f) for p, f, s in o.panics)))
        saved = self.dts
        self.dts = {"arr%d" % i: d for i, d in enumerate(dts)}
        env = dict(env)
        self.cur_panics = []
        try:
            out = {}
            bad = False
            for g, vals in tm[0].items():
                try:
                    memo = {}
                    res = None
                    for v in vals:
                        x = self.ev(v, env, memo)
                        res = x if res is None else self.join(res, x)
                    out[g] = res
                except Un:
                    bad = True
                except Panic:
                    out[g] = "panic"
                except RecursionError:
                    bad = True
            if bad:
                o = ClassRun(self, env)
                try:
                    it, r = run_arrays(self.p, self.D, fn, dts, list(extra), pre or (), obs=o, args=args)
                except Budget:
                    return {g: None for g in tm[0]}
                gs = self.gather(o.stores, rdt, outs)
                out = {}
                for g, vals in gs.items():
                    res = None
                    for v in vals:
                        try:
                            v = self.ev(v, env, {})
                            res = v if res is None else self.join(res, v)
                        except (Un, Panic):
                            res = None
                            break
                    out[g] = res
                self.cur_panics = [x[:2] for x in o.panics]
            return out
        finally:
            self.dts = saved

    def gather(self, stores, rdt, outs=()):
        """Stores into the result by loop and component."""
        want = RUST.get(rdt) or ("i64" if rdt and rdt.startswith(("datetime", "timedelta")) else None)
        ct = CX.get(want)
        out = {}
        for ptr, projs, ty, val, g, span in stores:
            if root(ptr) not in outs if root(ptr) is not None else not fresh_buffer(ptr) and not (outs and ty in (want, ct)):
                continue
            comp = None
            if ct:
                if ty == ct or (ptr.k == "t" and ptr.a[0] == "rawslice" and ptr.a[3] == ct):
                    comp = component(ptr, CSZ[ct])
                elif projs and projs[-1][0] == "f":
                    comp = projs[-1][1]
            out.setdefault((g, comp), []).append(val)
        return out


class Pan(Observer):
    def __init__(self):
        self.panics = []

    def on_panic(self, it, fr, st, path, span):
        self.panics.append((path, fr.path))


CX_D = {"complex64": "f32", "complex128": "f64"}


def _fnlike(a):
    return a.k in ("F", "C") or (a.k == "R")


def sets(v, rdt):
    """Class-name sets of a result value: (set,) or (re set, im set)."""
    want = RUST[rdt]
    if want in CX:
        if v.k != "A":
            return None
        return tuple(tocl(x, CX[want]) for x in v.a[2])
    if v.k == "A":
        return None
    return (tocl(v, want),)
