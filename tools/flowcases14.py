# ---------------------------------------------------------------- C14: products of arrays
P = "C14"


def c(fn, args, f, **kw):
    case(P, fn, args, f, kind="poly", **kw)


MM = [((2, 3), (3, 2)), ((3, 3), (3, 3)), ((1, 4), (4, 1)), ((4, 1), (1, 4)), ((2, 3), (3,)), ((3,), (3, 2)), ((3,), (3,)), ((2, 2, 3), (2, 3, 2)), ((2, 2, 3), (3, 2)), ((2, 3), (2, 3, 2)), ((2, 0), (0, 3)), ((1,), (1,)),
      ((2, 3), (2, 3)), ((3,), (2,)), ((2, 3), (2,)), ((2, 1, 2, 3), (3, 3, 1)), ((2, 2, 2), (3, 2, 2)), ((5, 4), (4, 2)), ((9,), (9,)), ((2, 2, 3), (3,)), ((3,), (2, 3, 2))]
for s1, s2 in MM:
    a, b = A("a", *s1), A("b", *s2)
    for fn in ("linalg.matmul", "m:__matmul__"):
        c(fn, [a, b], lambda a, b: np.matmul(a, b), exact=True)
    for fn in ("linalg.dot", "m:dot"):
        c(fn, [a, b], lambda a, b: np.dot(a, b), exact=True)
    c("linalg.inner", [a, b], lambda a, b: np.inner(a, b), exact=True)
    if len(s1) <= 2 and len(s2) <= 2:
        c("linalg.outer", [a, b], lambda a, b: np.outer(a, b), exact=True)
    c("linalg.kron", [a, b], lambda a, b: np.kron(a, b), exact=True)
    c("linalg.vdot", [a, b], lambda a, b: np.sum(np.conjugate(a).ravel() * b.ravel()))
for sh in [(3, 3), (2, 3), (3, 2), (1, 1), (4, 2)]:
    c("linalg.trace", [A("a", *sh)], lambda a: np.trace(a))
    c("m:trace", [A("a", *sh)], lambda a: np.trace(a))
for s1, s2 in [((3,), (3,)), ((2,), (4,))]:
    c("linalg.cross", [A("a", *s1), A("b", *s2)], lambda a, b: np.cross(a, b), exact=True)
for s1, s2, axes in [((2, 3), (3, 2), 1), ((2, 3), (2, 3), 2), ((2, 3), (2, 3), None), ((2, 2, 3), (3, 2), 1), ((2, 2, 3), (2, 3, 2), 2), ((2, 3), (3, 2), 0), ((3,), (3,), 1), ((2,), (3,), 0), ((2, 3), (2, 2), 1),
                     ((2, 3, 4), (4, 3, 2), ([1, 2], [1, 0])), ((2, 3), (4, 3), ([1], [1])), ((2, 3, 2), (2, 2), ([0], [1])), ((2, 3, 2), (3, 2), ([1, 0], [0, 1])), ((3, 2), (2, 3), ([0], [1])), ((2, 3, 2), (2, 3, 2), ([0, 2], [2, 0])),
                     ((2, 3), (3, 4), ([-1], [0])), ((2, 3, 2), (2, 2), ([-1], [-2]))]:
    a, b = A("a", *s1), A("b", *s2)
    c("linalg.tensordot", [a, b, axes], (lambda a, b, x: np.tensordot(a, b, 2 if x is None else x)), exact=True)
ES = [("ij,jk->ik", (2, 3), (3, 2)), ("ij,jk", (2, 3), (3, 2)), ("ij,jk->ki", (2, 3), (3, 2)), ("i,i->", (3,), (3,)), ("i,i", (3,), (3,)), ("i,j->ij", (2,), (3,)), ("i,j->ji", (2,), (3,)), ("ij->ji", (2, 3)), ("ij->i", (2, 3)), ("ij->j", (2, 3)), ("ij->", (2, 3)),
      ("ii->i", (3, 3)), ("ii->", (3, 3)), ("ii", (3, 3)), ("ij,ij->ij", (2, 3), (2, 3)), ("ij,ij->", (2, 3), (2, 3)), ("ij,ij->i", (2, 3), (2, 3)), ("ij,j->i", (2, 3), (3,)), ("i,ij->j", (2,), (2, 3)), ("bij,bjk->bik", (2, 2, 3), (2, 3, 2)),
      ("ij,kj->ik", (2, 3), (2, 3)), ("ji,jk->ik", (3, 2), (3, 2)), ("ijk->kij", (2, 3, 2)), ("ijk->ik", (2, 3, 2)), ("ij,jk->ik", (2, 3), (2, 2)), ("ba", (2, 3)), ("ij,jk->ijk", (2, 2), (2, 2)),
      ("ij,ik->ijk", (2, 2), (2, 3)), ("ijk,jk->i", (2, 2, 3), (2, 3)), ("iij->j", (2, 2, 3)), ("ij,ij->ji", (2, 2), (2, 2)), ("ij,ji->ij", (2, 2), (2, 2)), ("ij,ij->ji", (2, 3), (2, 3)), ("ij,ji->", (2, 3), (3, 2)), ("i,ij->ji", (2,), (2, 2)), ("ii,i->i", (2, 2), (2,)), ("ij,jj->i", (2, 2), (2, 2)), ("ij,kl->ijkl", (2, 1), (1, 2)), ("i,j->i", (2,), (3,)),
      ("ij,jk->k", (2, 2), (2, 2)), ("abc,cd->abd", (1, 2, 2), (2, 2)), ("abc,bd->acd", (1, 2, 2), (2, 2)), ("ijk->jik", (2, 2, 2)), ("iji->j", (2, 3, 2)), ("i->", (4,)), ("i->i", (3,)), ("ij,j->j", (2, 3), (3,)), ("ij,jk->ik", (2, 0), (0, 3))]
for sub, *shs in ES:
    c("einsum.einsum", [sub, tuple(A("abc"[k], *s) for k, s in enumerate(shs)), False], lambda s, t, o: np.einsum(s, *t), exact=True)
for sh, ns in [((2, 2), (0, 1, 2, 3, 4, 5)), ((1, 1), (0, 1, 3)), ((2, 3), (2,)), ((3, 3), (2,))]:
    for n in ns:
        c("linalg.matrix_power", [A("a", *sh), n], lambda a, n: np.linalg.matrix_power(a, n), exact=True)
for shs in [((2, 3), (3, 2)), ((2, 3), (3, 2), (2, 2)), ((2, 1), (1, 3), (3, 2)), ((2, 2), (2, 2), (2, 2)), ((3, 2), (2, 1), (1, 2)), ((2, 3), (2, 3), (3, 2))]:
    c("linalg.multi_dot", [[A("abcd"[k], *s) for k, s in enumerate(shs)]], lambda l: np.linalg.multi_dot(l), exact=True)
