"""Elementwise operations against NumPy's value for every class of element values (C04-C07)."""
from interp import *
from arrays import *
from vals import *
from core import pmap, Report
import time

PROG = DTS = None
TIER = "quick"
MATH_CX = ("Neg", "Square", "Positive", "Isnan", "Isinf", "Isfinite", "Signbit", "Isneginf", "Isposinf", "Rint", "Trunc")
CXD = ("complex64", "complex128")
# quick tier: fewer classes of each operand
QF = {"nan", "-inf", "-3", "-1.5", "-0", "0", "0.5", "1", "2", "inf", "0.5..1", ">3", "<-3"}
QI = {"min", "-3", "-1", "0", "1", "2", "max", "2^24+1", "2^53+1"}


def skip(sec, op, d):
    """Combinations outside the property: rumpy documents its own answer there."""
    cx = any(x in CXD for x in d)
    if sec == "bin":
        if all(x == "bool" for x in d) and op in ("Sub", "Pow", "Mod", "FloorDiv"):
            return True
        if cx and op not in ("Add", "Sub", "Mul", "Div", "Maximum", "Minimum", "FMax", "FMin"):
            return True
    if sec == "cmp" and cx and op not in ("Eq", "Ne"):
        return True
    if sec == "bit" and "shift" in op and all(x == "bool" for x in d):
        return True
    if sec == "un":
        if op in ("Isreal", "Iscomplex"):
            return True
        if d[0] == "bool" and op in ("Neg", "Sign", "Positive", "Square", "Reciprocal", "Abs", "Floor", "Ceil", "Trunc"):
            return True
        if cx and op not in MATH_CX:
            return True
    return False


def job(x):
    sec, op, part = x
    prog, D = PROG, DTS
    rep = Report("C0x", "")
    O = oracle()
    ev = Ev(prog, D)
    t0 = time.time()
    kw = {}
    tabs = O[sec][op]
    if sec == "bin":
        fn = prog.one("rumpy::ops::ufunc::map_binary_op")
        ex = [mk("A", DT + "BinaryOp", prog.adts[DT + "BinaryOp"].by_name[op], ())]
    elif sec == "cmp":
        fn = prog.one("rumpy::ops::ufunc::map_compare_op")
        ex = [mk("A", "rumpy::ops::ComparisonOp", prog.adts["rumpy::ops::ComparisonOp"].by_name[op], ())]
    elif sec == "log":
        fn, ex = prog.one("rumpy::ops::comparison::" + op), []
    elif sec == "bit":
        fn, ex = prog.one("rumpy::ops::bitwise::" + op), []
    elif sec == "un":
        fn = prog.one("rumpy::ops::ufunc::map_unary_op")
        ex = [mk("A", DT + "UnaryOp", prog.adts[DT + "UnaryOp"].by_name[op], ())]
    elif sec == "un1":
        fn, ex = prog.one("rumpy::ops::%s::%s" % ("comparison" if op == "logical_not" else "bitwise", op)), []
    elif sec == "cast":
        fn, ex = prog.one("rumpy::array::RumpyArray::astype"), None
    if part == "reuse":
        # the path taken when the left operand is a temporary whose buffer is handed over for the result
        fn = prog.one("rumpy::ops::ufunc::map_binary_op_inplace")
    for dts, tab in tabs.items():
        d = dts.split(",")
        if sec == "cast":
            d, ex, kw = [op], [D.val[dts]], {}
        if len(d) == 2 and (d[0] == d[1]) != (part != "mixed"):
            continue
        if part == "reuse":
            out = mk("A", OPT, 1, (sym_array("arr2", D.val[tab["dt"]]),))
            kw = dict(adts=d, extra=ex + [out], outs=("arr2",))
        elif sec != "cast":
            kw = dict(extra=ex)
        else:
            kw = dict(extra=ex)
        if skip(sec, op, d):
            rep.count("combinations outside the property")
            continue
        rep.count("operation and dtype combinations")

        def only(ks):
            if sec == "bin" and op == "Div" and any(x in CXD for x in d) and (
                    all(z in ("0", "-0") for z in ks[1].rstrip("j").split("+")) or any("inf" in k or "nan" in k for k in ks)):
                return False        # complex division by zero or of infinities: no agreed answer
            if sec == "un" and op == "Reciprocal" and "int" in d[0] and ks[0] == "0":
                return False        # NumPy's answer is undefined
            if TIER == "thorough" or len(d) == 1 or part == "mixed":
                return True
            return all(k in (QF if x[0] == "f" else QI) or x[0] not in "fiu" for k, x in zip(ks, d))
        u0 = time.time()
        compare(ev, rep, "%s:%s:%s" % (sec, op, dts), "%s(%s)" % (op, dts) if sec != "cast" else "%s.astype(%s)" % (op, dts), (op, part) if sec != "cast" else ("astype", dts), fn, d, tab, only=only, **kw)
        if os.environ.get("VDEBUG") and time.time() - u0 > 3:
            print("slow", sec, op, dts, "%.1f" % (time.time() - u0), flush=True)
    return rep


RULE = ("abstract interpretation of %s over the domain of element classes (each special value and boundary number is a class of its own, the open ranges between them "
        "another) with shapes, strides and positions symbolic: for every operation, operand dtypes and operand classes, the set of classes each writing loop can store must contain NumPy's result")


def run(prog, rep, jobs, what, floors):
    global PROG, DTS, TIER
    rep.rule = RULE % what
    PROG, DTS, TIER = prog, Dtypes(prog), rep.tier
    for part in pmap(job, jobs):
        rep.merge(part)
    for k, n in floors.items():
        rep.floor(k, n)
