"""Result dtypes of array-valued functions, by abstract interpretation with symbolic arrays of known dtype."""
import json, os
from interp import *
from arrays import *

ORACLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "oracle", "numpy_dtypes.json")))


def alts(v):
    if v.k == "P" and v.a[1]:
        return list(v.a[1])
    return [v]


def run_arrays(prog, D, fn, dts, extra=(), pre=(), rec=3, obs=None, args=None):
    """Interpret fn on references to symbolic arrays of the given dtypes; extra arguments follow."""
    it = Interp(prog, obs) if obs else Interp(prog)
    it.max_rec = rec
    h = dict(D.heap)
    for i, d in enumerate(dts):
        h[("X", i)] = sym_array("arr%d" % i, D.val[d])
    r = it.run(fn, args or list(pre) + [X(i) for i in range(len(dts))] + list(extra), heap=h)
    return it, r


def result_dtypes(D, r):
    """Set of dtype names an Ok/Some/plain array result can have; 'error' marks a refusal; None element: undetermined."""
    if r is None:
        return {"panic"}
    st, v = r
    out = set()
    for x in alts(v):
        if x.k == "A" and x.a[0] in (RES, OPT):
            if x.a[1] == (0 if x.a[0] == RES else 1):
                for y in alts(x.a[2][0]):
                    out.add(_arr_dt(D, st, y))
            else:
                out.add("error")
        else:
            out.add(_arr_dt(D, st, x))
    return out


def _arr_dt(D, st, y):
    if y.k == "A" and y.a[0] == ARR:
        return D.kind_of(y.a[2][4], st.heap, st.facts)
    return "undetermined value " + show(y)[:60]
