# ---------------------------------------------------------------- C11: functions that move elements
P = "C11"


def c(fn, args, f, **kw):
    case(P, fn, args, f, **kw)


SHS = [(4,), (1,), (0,), (2, 3), (3, 1), (1, 3), (3, 3), (0, 2), (2, 3, 2), (2, 1, 3)]
# joining
PAIRS = [((3,), (2,)), ((2,), (2,)), ((0,), (2,)), ((2, 3), (2, 3)), ((2, 3), (1, 3)), ((2, 3), (2, 1)), ((2, 3), (3,)), ((1, 3), (1, 3)), ((2, 2, 2), (2, 2, 2)), ((2, 1, 3), (2, 2, 3)), ((0, 3), (2, 3)), ((2, 3), (3, 2)), ((3, 1), (3, 1)), ((3, 1), (3,)), ((1,), (1, 1))]
for s1, s2 in PAIRS:
    a, b = A("a", *s1), A("b", *s2)
    for ax in range(max(len(s1), len(s2)) + 1):
        for fn in ("shape.concatenate", "shape.concat"):
            c(fn, [[a, b], ax], lambda l, x: np.concatenate(l, x))
        c("shape.stack", [[a, b], ax], lambda l, x: np.stack(l, x))
    c("shape.vstack", [[a, b]], lambda l: np.vstack(l))
    c("shape.row_stack", [[a, b]], lambda l: np.vstack(l))
    c("shape.hstack", [[a, b]], lambda l: np.hstack(l))
    c("shape.dstack", [[a, b]], lambda l: np.dstack(l))
    c("shape.column_stack", [[a, b]], lambda l: np.column_stack(l))
    c("shape.append", [a, b, None], lambda a, b, x: np.append(a, b))
    for ax in range(-len(s1), len(s1)):
        c("shape.append", [a, b, ax], lambda a, b, x: np.append(a, b, axis=x))
for sh in SHS + [()]:
    a = A("a", *sh)
    for fn, g in (("shape.vstack", np.vstack), ("shape.hstack", np.hstack), ("shape.dstack", np.dstack), ("shape.column_stack", np.column_stack)):
        if sh:
            c(fn, [[a]], lambda l, g=g: g(l))
    if len(sh):
        c("shape.concatenate", [[a], 0], lambda l, x: np.concatenate(l, x))
        c("shape.stack", [[a, a, a], len(sh)], lambda l, x: np.stack(l, x))
c("shape.concatenate", [[A("a", 2, 2), A("b", 1, 2), A("c", 3, 2)], 0], lambda l, x: np.concatenate(l, x))
c("shape.concatenate", [[A("a", 2, 2), A("b", 2, 1), A("c", 2, 0), A("d", 2, 1)], 1], lambda l, x: np.concatenate(l, x))
c("shape.hstack", [[A("a", 2), A("b", 1), A("c", 3)]], lambda l: np.hstack(l))
c("shape.dstack", [[A("a", 2), A("b", 2), A("c", 2)]], lambda l: np.dstack(l))
c("shape.stack", [[A("a", 2, 3), A("b", 2, 3), A("c", 2, 3)], 1], lambda l, x: np.stack(l, x))
# rearranging and repeating
for sh in SHS:
    a = A("a", *sh)
    nd = len(sh)
    for k in (0, 1, -1, 2, 5, -7):
        c("shape.roll", [a, k, None], lambda a, k, x: np.roll(a, k))
        for ax in range(-nd, nd):
            c("shape.roll", [a, k, ax], lambda a, k, x: np.roll(a, k, x))
    for k in (0, 1, 2, 3):
        for fn in ("shape.repeat", "m:repeat"):
            c(fn, [a, k, None], lambda a, k, x: np.repeat(a, k))
            for ax in range(-nd - 1 if fn[0] == "s" else 0, nd + 1):
                c(fn, [a, k, ax], lambda a, k, x: np.repeat(a, k, x))
    for r in (1, 2, (2,), (2, 1), (1, 2), (2, 3), (0, 1), (2, 1, 2), (1, 2, 1), (3, 1, 1)):
        c("shape.tile", [a, r], lambda a, r: np.tile(a, r))
    for n in (0, 1, 3, 5, 7, (2, 2), (3, 4), (2, 1, 2)):
        c("misc.resize", [a, n], lambda a, n: np.resize(a, n), **({"skip": "*"} if 0 in sh else {}))
    for k in range(-sh[0] - 1, sh[0] + 1):
        c("shape.delete", [a, k, 0], lambda a, k, x: np.delete(a, k, x))
        if nd == 1:
            c("shape.delete", [a, k, None], lambda a, k, x: np.delete(a, k))
    if nd > 1:
        for ax in range(-nd, nd):
            c("shape.delete", [a, 0, ax], lambda a, k, x: np.delete(a, k, x))
            c("shape.delete", [a, -1, ax], lambda a, k, x: np.delete(a, k, x))
        c("shape.delete", [a, 1, None], lambda a, k, x: np.delete(a, k))
        c("shape.delete", [a, -2, None], lambda a, k, x: np.delete(a, k))
    for k in range(-2, 4):
        c("shape.insert", [a, k, 7.0, None], lambda a, k, v, x: np.insert(a, k, int(v)))
        c("shape.insert", [a, k, A("b", 2), None], lambda a, k, v, x: np.insert(a, k, v))
        c("shape.insert", [a, k, A("b", 1), None], lambda a, k, v, x: np.insert(a, k, v))
        for ax in range(-nd, nd):
            c("shape.insert", [a, k, 7.0, ax], lambda a, k, v, x: np.insert(a, k, int(v), x))
            if nd == 2 and k >= 0 and 0 not in sh:
                c("shape.insert", [a, k, A("b", sh[1 - ax % 2]), ax], lambda a, k, v, x: np.insert(a, k, v, x))
    for w in (0, 1, 2, (1, 2), (0, 3)) + ((((1, 0), (0, 2), (1, 1)),) if nd == 3 else ()):
        for m in ("constant", "edge"):
            c("shape.pad", [a, w, m, 0.0], lambda a, w, m, v: np.pad(a, w, m))
        c("shape.pad", [a, w, "constant", 5.0], lambda a, w, m, v: np.pad(a, w, m, constant_values=5))
    for fn in ("m:copy", "creation.copy"):
        c(fn, [a], lambda a: np.copy(a))
    c("creation.ascontiguousarray", [a, None], lambda a, d: np.ascontiguousarray(a), view=False)
    c("creation.asfortranarray", [a, None], lambda a, d: np.asfortranarray(a), view=False)
    c("creation.array", [a, None], lambda a, d: np.array(a))
    c("creation.asarray", [a, None], lambda a, d: np.asarray(a), view=False)
    c("m:astype", [a, "float64"], lambda a, d: a.copy(), dt="float64")
    c("m:astype", [a, "float64"], lambda a, d: a.copy(), dt="int32")
    c("m:astype", [a, "int64"], lambda a, d: a.copy(), dt="int16")
    for k in (-3, -2, -1, 0, 1, 2, 3):
        for fn, g in (("creation.tril", np.tril), ("creation.triu", np.triu)):
            if nd == 2:
                c(fn, [a, k], lambda a, k, g=g: g(a, k))
        if nd == 1:
            c("creation.diagflat", [a, k], lambda a, k: np.diagflat(a, k))
    c("linalg.diag", [a], lambda a: np.diag(a), view=False)
    c("creation.diagflat", [a, 0], lambda a, k: np.diagflat(a, k))
    for ax in range(-nd, nd):
        c("misc.unstack", [a, ax], lambda a, x: [np.take(a, i, x) for i in range(a.shape[x])], view=False)
    c("shape.transpose", [a, None], lambda a, x: np.transpose(a))
# selecting
I = lambda *d, nm="b": A(nm, len(d), dt="int64", data=list(d))
for sh in [(4,), (3, 3), (2, 3), (2, 3, 2), (1,)]:
    a = A("a", *sh)
    nd = len(sh)
    n0 = sh[0]
    for ix in ([0], [n0 - 1, 0], [0, 0, n0 - 1], [-1, 0], [-n0], [], [n0], [-n0 - 1]):
        i = A("b", len(ix), dt="int64", data=ix)
        for fn in ("m:take", "indexing.take"):
            c(fn, [a, i, 0], lambda a, i, x: np.take(a, i.astype(int), x))
            c(fn, [a, i, None], lambda a, i, x: np.take(a, i.astype(int)))
        c("m:__getitem__", [a, i], lambda a, i: a[i.astype(int)])
        if ix:
            c("m:__getitem__", [a, ix], lambda a, i: a[i])
    for ax in range(1, nd):
        for ix in ([0, sh[ax] - 1], [-1, 0, 0], [sh[ax]]):
            i = A("b", len(ix), dt="int64", data=ix)
            for fn in ("m:take", "indexing.take"):
                c(fn, [a, i, ax], lambda a, i, x: np.take(a, i, x))
    for fl in ([1] * n0, [0] * n0, [1] + [0] * (n0 - 1), [0] * (n0 - 1) + [1], [k % 2 for k in range(n0)]):
        m = A("b", n0, dt="bool", data=fl)
        if nd == 1:
            c("m:__getitem__", [a, m], lambda a, m: a[m.astype(bool)])
        c("indexing.compress", [m, a, 0], lambda m, a, x: np.compress(m, a, x))
        c("m:compress", [a, m, 0], lambda a, m, x: np.compress(m, a, x))
    for ax in range(nd):
        k = sh[ax]
        for fl in ([i % 2 for i in range(k)], [1] * k, [0] * (k - 1) + [1], [0] * k)[:None if ax else 1]:
            m = A("b", k, dt="bool", data=fl)
            c("indexing.compress", [m, a, ax], lambda m, a, x: np.compress(m, a, x))
            c("m:compress", [a, m, ax], lambda a, m, x: np.compress(m, a, x))
    if sh != (1,):
        c("indexing.compress", [A("b", 2, dt="bool", data=[0, 1]), a, None], lambda m, a, x: np.compress(m, a))
        c("m:compress", [a, A("b", 2, dt="bool", data=[1, 0]), None], lambda a, m, x: np.compress(m, a))
    n = int(np.prod(sh))
    for fl in ([k % 2 for k in range(n)], [1] * n, [0] * n, [int(k % 3 == 0) for k in range(n)]):
        m = A("b", *sh, dt="bool", data=fl)
        c("misc.extract", [m, a], lambda m, a: np.extract(m, a))
        c("m:__getitem__", [a, m], lambda a, m: a[m.astype(bool)])
        c("indexing.where_fn", [m, a, A("c", *sh)], lambda m, a, x: np.where(m, a, x))
        c("misc.select", [[m], [a], 3.0], lambda m, a, d: np.select([x.astype(bool) for x in m], a, int(d)))
    if nd == 2:
        for ax, ish in ((0, (2, sh[1])), (1, (sh[0], 2)), (1, (sh[0], 1)), (0, (1, sh[1]))):
            k = sh[ax]
            cnt = ish[0] * ish[1]
            for seed in (0, 1):
                d = [(j * 2 + seed) % k if seed == 0 else -1 - (j % k) for j in range(cnt)]
                i = A("b", *ish, dt="int64", data=d)
                c("indexing.take_along_axis", [a, i, ax], lambda a, i, x: np.take_along_axis(a, i, x))
    if nd == 1:
        c("indexing.take_along_axis", [a, A("b", 2, dt="int64", data=[n0 - 1, 0]), 0], lambda a, i, x: np.take_along_axis(a, i, x))
m = A("c", 3, dt="bool", data=[1, 0, 1])
c("indexing.where_fn", [m, A("a", 2, 3), A("b", 3)], lambda m, a, b: np.where(m, a, b))
c("indexing.where_fn", [m, A("a", 2, 1), A("b", 1)], lambda m, a, b: np.where(m, a, b))
c("indexing.where_fn", [m, A("a", 3), 4.0], lambda m, a, b: np.where(m, a, int(b)), dt="complex128")
c("indexing.where_fn", [m, A("a", 3), 4.0], lambda m, a, b: np.where(m, a, int(b)), dt="float64")
c("indexing.where_fn", [m, 4.0, A("b", 2, 3)], lambda m, a, b: np.where(m, int(a), b), dt="float64")
c("indexing.where_fn", [m, A("a", 2), A("b", 3)], lambda m, a, b: np.where(m, a, b))
c("indexing.where_fn", [A("c", 2, 1, dt="bool", data=[1, 0]), A("a", 2, 3), A("b", 3)], lambda m, a, b: np.where(m, a, b))
for ch in ([0, 1, 1], [1, 0, 0]):
    c("indexing.choose", [A("c", 3, dt="int64", data=ch), [A("a", 3), A("b", 3)]], lambda i, l: np.choose(i, l))
    c("m:choose", [A("c", 3, dt="int64", data=ch), [A("a", 3), A("b", 3)]], lambda i, l: np.choose(i, l))
c("misc.select", [[A("c", 3, dt="bool", data=[1, 0, 0]), A("d", 3, dt="bool", data=[1, 1, 0])], [A("a", 3), A("b", 3)], 9.0], lambda m, a, d: np.select([x.astype(bool) for x in m], a, int(d)))
for s1, s2 in [((3,), (2,)), ((1,), (3,)), ((2,), (2,))]:
    for ix in ("xy", "ij"):
        c("creation.meshgrid", [(A("a", *s1), A("b", *s2)), ix], lambda t, i: list(np.meshgrid(*t, indexing=i)))
        c("creation.meshgrid", [(A("a", *s1), A("b", *s2), A("c", 2)), ix], lambda t, i: list(np.meshgrid(*t, indexing=i)))
c("creation.meshgrid", [(A("a", 3),), "xy"], lambda t, i: list(np.meshgrid(*t, indexing=i)))
c("misc.block", [[A("a", 2), A("b", 3)]], lambda l: np.block(l))
c("misc.block", [[[A("a", 2, 2), A("b", 2, 1)], [A("c", 1, 2), A("d", 1, 1)]]], lambda l: np.block(l))
c("misc.block", [[[A("a", 2, 3)], [A("b", 1, 3)]]], lambda l: np.block(l))
# values chosen by indices alone
for n, k, m in [(3, 0, None), (3, 1, None), (3, -1, None), (2, 0, 4), (4, 1, 2), (3, -1, 2)]:
    c("indexing.tril_indices", [n, k, m], lambda n, k, m: list(np.tril_indices(n, k, m)))
    c("indexing.triu_indices", [n, k, m], lambda n, k, m: list(np.triu_indices(n, k, m)))
    c("creation.tri", [n, m, k, None], lambda n, m, k, d: np.tri(n, m, k))
for n in (0, 1, 2, 3):
    c("creation.identity", [n, None], lambda n, d: np.identity(n))
    c("creation.eye", [n, None], lambda n, d: np.eye(n))
    for d in (1, 2, 3):
        c("indexing.diag_indices", [n, d], lambda n, d: list(np.diag_indices(n, d)))
for dims in ([3], [2, 3], [2, 3, 2]):
    n = int(np.prod(dims))
    for ix in ([0], [n - 1], [1, 0, n - 1], [n]):
        for o in ("C", "F"):
            c("indexing.unravel_index", [A("a", len(ix), dt="int64", data=ix), dims, o], lambda i, d, o: list(np.unravel_index(i, d, o)))
    c("creation.indices", [dims, None], lambda d, t: np.indices(d))
for o in ("C", "F"):
    for m in ("raise", "wrap", "clip"):
        for t in (([0, 1, 1], [2, 0, 1]), ([1], [3]), ([2, -1], [0, 5])):
            c("indexing.ravel_multi_index", [A("a", 2, len(t[0]), dt="int64", data=t[0] + t[1]), [2, 3], m, o], lambda t, d, m, o: np.ravel_multi_index(tuple(t.astype(int)), d, m, o))
for sh in [(3,), (2, 3)]:
    n = int(np.prod(sh))
    for fl in ([k % 2 for k in range(n)], [0] * n, [1] * n):
        z = A("a", *sh, dt="int64", data=fl)
        c("shape.nonzero", [z], lambda a: list(np.nonzero(a)))
        c("indexing.argwhere", [z], lambda a: np.argwhere(a))
        c("indexing.flatnonzero", [z], lambda a: np.flatnonzero(a))
for sh in ([], [3], [2, 3], [0, 2]):
    c("creation.zeros", [tuple(sh), None], lambda s, d: np.zeros(s))
    c("creation.ones", [tuple(sh), None], lambda s, d: np.ones(s))
    c("creation.full", [tuple(sh), 3.0, None], lambda s, v, d: np.full(s, v))
    a = A("a", *sh)
    c("creation.zeros_like", [a, None], lambda a, d: np.zeros_like(a))
    c("creation.ones_like", [a, None], lambda a, d: np.ones_like(a))
    c("creation.full_like", [a, 3.0, None], lambda a, v, d: np.full_like(a, v))
# longer axes: unrolled and chunked loops
for sh in [(17,), (2, 9), (9, 2)]:
    a, b = A("a", *sh), A("b", *sh)
    n = int(np.prod(sh))
    for fn in ("m:copy", "creation.copy"):
        c(fn, [a], lambda a: np.copy(a))
    c("m:astype", [a, "float64"], lambda a, d: a.copy(), dt="int32")
    c("shape.concatenate", [[a, b], 0], lambda l, x: np.concatenate(l, x))
    c("shape.concatenate", [[a, b], len(sh) - 1], lambda l, x: np.concatenate(l, x))
    c("shape.roll", [a, 3, -1], lambda a, k, x: np.roll(a, k, x))
    c("shape.roll", [a, 3, None], lambda a, k, x: np.roll(a, k))
    c("shape.repeat", [a, 2, 0], lambda a, k, x: np.repeat(a, k, x))
    c("m:repeat", [a, 2, None], lambda a, k, x: np.repeat(a, k))
    c("shape.tile", [a, 2], lambda a, r: np.tile(a, r))
    c("creation.ascontiguousarray", [a, None], lambda a, d: np.ascontiguousarray(a), view=False)
    m = A("c", *sh, dt="bool", data=[int(k % 3 != 1) for k in range(n)])
    c("indexing.where_fn", [m, a, b], lambda m, a, b: np.where(m, a, b))
    c("misc.extract", [m, a], lambda m, a: np.extract(m, a))
    c("m:__getitem__", [a, m], lambda a, m: a[m.astype(bool)])
    i = A("b", 9, dt="int64", data=[(k * 5 + 3) % sh[0] for k in range(9)])
    c("m:take", [a, i, 0], lambda a, i, x: np.take(a, i, x))
    c("indexing.take", [a, i, 0], lambda a, i, x: np.take(a, i, x))
    c("indexing.take", [a, i, None], lambda a, i, x: np.take(a, i))
    if len(sh) == 2:
        i = A("b", 2, sh[1], dt="int64", data=[(k * 5 + 3) % sh[0] for k in range(2 * sh[1])])
        c("indexing.take_along_axis", [a, i, 0], lambda a, i, x: np.take_along_axis(a, i, x))
