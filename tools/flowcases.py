# ---------------------------------------------------------------- C10: basic indexing and views
G = "m:__getitem__"
SH = [(4,), (1,), (0,), (2, 3), (3, 1), (2, 3, 2), (3, 2, 2)]


def get(a, k):
    r = a[k]
    return r


S_ = slice
slices = [S_(None), S_(1, None), S_(None, -1), S_(None, None, -1), S_(None, None, 2), S_(3, 0, -1), S_(-2, None), S_(None, -3, -1), S_(5, 1, -2), S_(-9, 9), S_(2, 1), S_(0, 0), S_(None, 1, -1), S_(-1, None, -2), S_(1, 9, 3),
          S_(-1, -3, -1), S_(9, None, -1), S_(-5, 2), S_(0, -1, 2)]
for sh in SH:
    a = A("a", *sh)
    for s in slices:
        case("C10", G, [a, s], get)
    for i in (0, 1, -1, -sh[0], sh[0] - 1, sh[0], -sh[0] - 1, 7):
        case("C10", G, [a, i], get)
    case("C10", G, [a, Ellipsis], get)
    case("C10", G, [a, None], get)
for n in (5, 7):
    a = A("a", n)
    ends = [None, -n - 1, -n, -3, -1, 0, 1, 3, n - 1, n, n + 2]
    for s0 in ends:
        for s1 in ends:
            for k in (2, 3, 4, -1, -2, -3, -4):
                case("C10", G, [a, S_(s0, s1, k)], get, lay="s")
for n in (6, 9):
    a = A("a", 2, n)
    for s0 in (None, -2, 1, n):
        for s1 in (None, -n, 2, -1):
            for k in (3, -2, -3, 5):
                case("C10", G, [a, (S_(None), S_(s0, s1, k))], get, lay="s")
                case("C10", G, [a, (1, S_(s0, s1, k))], get, lay="s")
for sh in [(2, 3), (3, 1), (4, 3), (2, 0)]:
    a = A("a", *sh)
    keys = [(0, 1), (-1, -1), (0,), (S_(None), 0), (S_(None), -1), (S_(None, None, -1), S_(None)), (S_(None), S_(None, None, -1)), (S_(None, None, -1), S_(None, None, -1)), (1, S_(1, None)), (S_(1, None), S_(None, 2)), (Ellipsis, 0), (0, Ellipsis),
            (None, 0), (0, None), (S_(None), None), (None, S_(None), None), (Ellipsis, None), (None, Ellipsis), (S_(None, None, 2), S_(None, None, 2)), (S_(None), S_(2, None, -2)), (S_(2, 0, -1), 1), (sh[0], 0), (0, sh[1]), (-sh[0] - 1, 0), (0, -sh[1] - 1),
            (0, 0, 0), (S_(5, 9), 0), (S_(None, None, -1), 0), (0, S_(None, None, -1)), (S_(None), S_(5, None, -1)), (1, S_(None, None, 2)), (S_(None), S_(-1, None, -1)), (S_(-3, -1), -1)]
    for k in keys:
        case("C10", G, [a, k], get)
for sh in [(2, 3, 2), (2, 2, 3)]:
    a = A("a", *sh)
    keys = [(0, 1, 1), (1,), (0, 1), (S_(None), 1), (S_(None), S_(None), 1), (S_(None), 1, S_(None)), (0, S_(None), -1), (Ellipsis, 1), (0, Ellipsis, 1), (Ellipsis, 0, S_(None)), (1, Ellipsis), (S_(None, None, -1), Ellipsis, 0), (None, 0, Ellipsis), (0, None, 1),
            (S_(None), None, 1), (Ellipsis, None, 0), (S_(None, None, -1), S_(None, None, -1), S_(None, None, -1)), (S_(1), S_(1, None), S_(None)), (S_(None), S_(None, None, 2), S_(None, None, -1)), (-1, -1, -1), (0, 0, sh[2]), (0, sh[1], 0), (0, S_(None), S_(None, None, -1)),
            (1, S_(2, 0, -1), 0), (None, S_(None), 0, None), (Ellipsis, S_(0, 1)), (S_(0, 1), 0), (None, None, 1, 1, 1), (0, 0, 0, 0)]
    for k in keys:
        case("C10", G, [a, k], get)
a = A("a")
case("C10", G, [a, Ellipsis], get)
case("C10", G, [a, 0], get)
case("C10", G, [a, None], get)

V2 = [(2, 3), (3, 3), (1, 4), (4, 1), (0, 3)]
V3 = [(2, 3, 4), (3, 1, 2), (2, 2, 2)]
VS = [(4,), (1,), (0,)] + V2 + V3
for sh in [()] + VS:
    a = A("a", *sh)
    nd = len(sh)
    case("C10", "shape.transpose", [a, None], lambda a, k: np.transpose(a))
    case("C10", "m:transpose", [a], lambda a: a.T)
    case("C10", "m:T", [a], lambda a: a.T)
    for q in itertools.permutations(range(nd)):
        case("C10", "shape.transpose", [a, list(q)], lambda a, k: np.transpose(a, k))
        case("C10", "shape.permute_dims", [a, list(q)], lambda a, k: np.transpose(a, k))
    case("C10", "shape.matrix_transpose", [a], lambda a: np.matrix_transpose(a))
    for i in range(nd):
        for j in range(nd):
            case("C10", "shape.swapaxes", [a, i, j], lambda a, i, j: np.swapaxes(a, i, j))
            case("C10", "m:swapaxes", [a, i, j], lambda a, i, j: np.swapaxes(a, i, j))
    for i in range(-nd - 1, nd + 1):
        for j in range(-nd - 1, nd + 1):
            case("C10", "shape.moveaxis", [a, i, j], lambda a, i, j: np.moveaxis(a, i, j))
        for j in range(-nd, nd + 1):
            case("C10", "shape.rollaxis", [a, i, j], lambda a, i, j: np.rollaxis(a, i, j))
    if nd == 3:
        for s in itertools.permutations((0, 1, 2), 2):
            for d in itertools.permutations((0, 1, -1), 2):
                case("C10", "shape.moveaxis", [a, s, d], lambda a, i, j: np.moveaxis(a, i, j))
        case("C10", "shape.moveaxis", [a, (0, 1, 2), (2, 0, 1)], lambda a, i, j: np.moveaxis(a, i, j))
    for i in list(range(-nd - 1, nd + 1)) + [None]:
        case("C10", "shape.flip", [a, i], lambda a, i: np.flip(a, i))
    for i in range(-nd - 2, nd + 2):
        case("C10", "shape.expand_dims", [a, i], lambda a, i: np.expand_dims(a, i))
    case("C10", "shape.fliplr", [a], lambda a: np.fliplr(a))
    case("C10", "shape.flipud", [a], lambda a: np.flipud(a))
    case("C10", "shape.squeeze", [a], lambda a: np.squeeze(a))
    case("C10", "m:squeeze", [a], lambda a: np.squeeze(a))
    for n in ("atleast_1d", "atleast_2d", "atleast_3d"):
        case("C10", "shape." + n, [a], getattr(np, n))
    case("C10", "shape.ravel", [a], lambda a: np.ravel(a), view=False)
    case("C10", "m:ravel", [a], lambda a: np.ravel(a), view=False)
    case("C10", "shape.flatten", [a], lambda a: a.flatten(), view=True)
    case("C10", "m:flatten", [a], lambda a: a.flatten(), view=True)
    if nd >= 2:
        for k in (-3, -2, -1, 0, 1, 2, 3, 4, 5):
            case("C10", "shape.rot90", [a, k, (0, 1)], lambda a, k, x: np.rot90(a, k, x))
        case("C10", "shape.rot90", [a, 1, (1, 0)], lambda a, k, x: np.rot90(a, k, x))
        case("C10", "shape.rot90", [a, 1, (-1, 0)], lambda a, k, x: np.rot90(a, k, x))
        if nd == 3:
            case("C10", "shape.rot90", [a, 1, (1, 2)], lambda a, k, x: np.rot90(a, k, x))
            case("C10", "shape.rot90", [a, 3, (2, 0)], lambda a, k, x: np.rot90(a, k, x))
    if nd >= 2:
        case("C10", "shape.diagonal", [a], lambda a: np.diagonal(a))
        case("C10", "m:diagonal", [a], lambda a: np.diagonal(a))
    for n in (1, 2, 3, 4):
        for ax in range(nd):
            case("C10", "shape.split", [a, n, ax], lambda a, n, x: np.split(a, n, x))
            case("C10", "shape.array_split", [a, n, ax], lambda a, n, x: np.array_split(a, n, x))
        case("C10", "shape.hsplit", [a, n], lambda a, n: np.hsplit(a, n))
        case("C10", "shape.vsplit", [a, n], lambda a, n: np.vsplit(a, n))
        case("C10", "shape.dsplit", [a, n], lambda a, n: np.dsplit(a, n))
    n = int(np.prod(sh, dtype=int))
    news = {12: [(12,), (3, 4), (4, 3), (2, -1), (-1, 6), (2, 3, 2), (5, 2)], 24: [(24,), (4, 6), (-1, 3), (6, 2, 2), (2, 12), (3, 2, 4)], 8: [(8,), (2, 4), (4, -1)], 6: [(6,), (3, 2), (1, 6), (6, 1), (2, 1, 3), (-1,), (4, 2), (-1, 4)],
            4: [(2, 2), (4,), (4, 1), (1, 4), (-1,), (3,)], 9: [(9,), (1, 9), (3, 3)], 1: [(1,), (1, 1), (-1,), ()], 0: [(0,), (0, 4), (3, 0), (2,)]}.get(n, [])
    for s in news:
        case("C10", "shape.reshape", [a, s], lambda a, s: np.reshape(a, s), view=False)
        if s != ():
            case("C10", "m:reshape", [a, s], lambda a, s: np.reshape(a, s), view=False)
        case("C10", "m:reshape", [a, (s,)], lambda a, s: np.reshape(a, s[0]), view=False)
for sh, to in [((3,), (2, 3)), ((1,), (4,)), ((3, 1), (3, 4)), ((3, 1), (2, 3, 4)), ((1, 1), (2, 2)), ((2, 3), (2, 3)), ((3,), (4,)), ((2, 3), (3,)), ((), (2, 2)), ((1, 3), (0, 3)), ((3,), (3, 1)), ((2, 1, 3), (2, 4, 3)), ((2,), (2, 3))]:
    case("C10", "shape.broadcast_to", [A("a", *sh), list(to)], lambda a, s: np.broadcast_to(a, tuple(s)))
for s1, s2 in [((3, 1), (4,)), ((2, 3), (3,)), ((2, 3), (2, 1)), ((1,), (5,)), ((2, 3), (2,)), ((), (2, 2)), ((3, 1, 2), (4, 1)), ((0,), (1,)), ((2, 1), (1, 3))]:
    case("C10", "shape.broadcast_arrays", [[A("a", *s1), A("b", *s2)]], lambda l: list(np.broadcast_arrays(*l)))
