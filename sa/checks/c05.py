"""C05: comparisons, logical and bitwise operations store NumPy's value for every class of operand values."""
from elemwise import *


def check(prog, rep):
    O = oracle()
    jobs = [(s, op, part) for s in ("cmp", "log", "bit") for op in O[s] for part in ("same", "mixed")] + [("un1", op, "same") for op in O["un1"]]
    run(prog, rep, jobs, "map_compare_op, logical_* and bitwise_*", {"operation and dtype combinations": 1900})
