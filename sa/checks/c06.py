"""C06: mathematical functions store NumPy's value for every class of operand values."""
from elemwise import *


def check(prog, rep):
    O = oracle()
    jobs = [("un", op, "same") for op in O["un"]]
    run(prog, rep, jobs, "map_unary_op", {"operation and dtype combinations": 440})
