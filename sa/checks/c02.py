"""C02: the dtype an elementwise operation returns is NumPy's, for every operation and every pair of bool/numeric dtypes."""
from interp import *
from arrays import *
from dt import *
from core import pmap, Report

DT = "rumpy::array::dtype::"
# Where rumpy deliberately accepts or widens differently from NumPy (read in the code and its tests; NumPy refuses, or
# computes bool as int8).  Listed pair by pair so that anything else is compared.
BIN_SKIP = {("Sub", "bool", "bool"), ("Pow", "bool", "bool"), ("Mod", "bool", "bool"), ("FloorDiv", "bool", "bool")}
UN_SKIP = {("Neg", "bool"), ("Sign", "bool"), ("Positive", "bool"), ("Square", "bool"), ("Reciprocal", "bool"), ("Abs", "complex64"), ("Abs", "complex128")}
UN_OUT = {"Isreal", "Iscomplex"}     # not in the property: rumpy returns the input dtype, its tests pin that down
LOGICAL = ["logical_and", "logical_or", "logical_xor"]
BIT = ["bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"]

PROG = None
DTS = None


def variants(prog, n):
    return [v[0] for v in prog.adts[DT + n].variants]


def job(x):
    kind, op, oi = x
    rep = Report("C02", "")
    prog, D = PROG, DTS
    if kind == "binary":
        f = prog.one("rumpy::ops::ufunc::map_binary_op")
        for a in NUMERIC:
            for b in NUMERIC:
                want = ORACLE["binary"][op][a][b]
                if want is None or (op, a, b) in BIN_SKIP:
                    rep.count("pairs NumPy refuses or rumpy documents otherwise")
                    continue
                it, r = run_arrays(prog, D, f, [a, b], [mk("A", DT + "BinaryOp", oi, ())])
                judge(rep, "binary:%s:%s,%s" % (op, a, b), "%s of %s and %s arrays" % (op, a, b), r, D, want)
    elif kind == "compare":
        f = prog.one("rumpy::ops::ufunc::map_compare_op")
        for a in NUMERIC:
            for b in NUMERIC:
                it, r = run_arrays(prog, D, f, [a, b], [mk("A", "rumpy::ops::ComparisonOp", oi, ())])
                judge(rep, "compare:%s:%s,%s" % (op, a, b), "comparison %s of %s and %s arrays" % (op, a, b), r, D, "bool")
    elif kind == "logical":
        f = prog.one("rumpy::ops::comparison::" + op)
        for a in NUMERIC:
            for b in NUMERIC:
                it, r = run_arrays(prog, D, f, [a, b])
                judge(rep, "logical:%s:%s,%s" % (op, a, b), "%s of %s and %s arrays" % (op, a, b), r, D, "bool")
    elif kind == "bit":
        f = prog.one("rumpy::ops::bitwise::" + op)
        ints = [n for n in NUMERIC if "int" in n or n == "bool"]
        for a in ints:
            for b in ints:
                want = ORACLE["promote"][a][b]
                if not ("int" in want or want == "bool"):
                    continue
                if "shift" in op and want == "bool":
                    continue
                it, r = run_arrays(prog, D, f, [a, b])
                judge(rep, "bitwise:%s:%s,%s" % (op, a, b), "%s of %s and %s arrays" % (op, a, b), r, D, want)
    elif kind == "unary":
        f = prog.one("rumpy::ops::ufunc::map_unary_op")
        for a in NUMERIC:
            want = ORACLE["unary"][op][a]
            if want is None or (op, a) in UN_SKIP:
                rep.count("cases NumPy refuses or rumpy documents otherwise")
                continue
            it, r = run_arrays(prog, D, f, [a], [mk("A", DT + "UnaryOp", oi, ())])
            judge(rep, "unary:%s:%s" % (op, a), "%s of a %s array" % (op, a), r, D, want)
    return rep


def judge(rep, key, what, r, D, want):
    got = result_dtypes(D, r) - {"error"}
    if any(g is None or g.startswith("undetermined") or g.startswith("one of") for g in got):
        rep.count("undecided")
        return
    rep.count("decided")
    text = "%s gives dtype %s, NumPy gives %s" % (what, "/".join(sorted(got)) or "nothing (always refused)", want)
    rep.ob(key, got == {want}, text, sample=text)


def check(prog, rep):
    global PROG, DTS
    rep.rule = ("abstract interpretation of the elementwise dispatchers (map_binary_op, map_compare_op, map_unary_op, logical_*, bitwise_*) "
                "for every operation and every pair of dtypes with shapes, strides and contents symbolic; the dtype of every array the function "
                "can return is compared with NumPy %s's result dtype" % ORACLE["numpy"])
    PROG = prog
    DTS = Dtypes(prog)
    jobs = [("binary", op, i) for i, op in enumerate(variants(prog, "BinaryOp")) if op in ORACLE["binary"]]
    jobs += [("compare", v[0], i) for i, v in enumerate(prog.adts["rumpy::ops::ComparisonOp"].variants)]
    jobs += [("logical", n, 0) for n in LOGICAL]
    jobs += [("bit", n, 0) for n in BIT]
    jobs += [("unary", op, i) for i, op in enumerate(variants(prog, "UnaryOp")) if op in ORACLE["unary"] and op not in UN_OUT]
    for part in pmap(job, jobs):
        rep.merge(part)
    rep.count("operations", len(jobs))
    rep.floor("operations", 60)
    rep.floor("decided", 4000)
