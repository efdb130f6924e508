"""C07: astype stores NumPy's value for every class of element values."""
from elemwise import *


def check(prog, rep):
    O = oracle()
    jobs = [("cast", a, "same") for a in O["cast"]]
    run(prog, rep, jobs, "astype for every pair of dtypes", {"operation and dtype combinations": 190})
