"""C04: array arithmetic stores NumPy's value for every class of operand values."""
from elemwise import *


def check(prog, rep):
    O = oracle()
    jobs = [("bin", op, part) for op in O["bin"] for part in ("same", "mixed", "reuse")]
    run(prog, rep, jobs, "map_binary_op and map_binary_op_inplace (new result and reused buffer)", {"operation and dtype combinations": 3000})
