"""C11: functions that move, join, repeat and select elements place exactly NumPy's elements, unrounded, in fresh memory."""
import flowcheck

RULE = ("each Python-level call is interpreted over its MIR with arrays of concrete dimensions whose offset and strides are symbols (C, Fortran, arbitrary and broadcast layouts); dimensions of the result, the byte address every result element denotes, "
        "its buffer and its contiguity flags are derived as linear terms and compared with the element map NumPy has for the same call; an element converted to a narrower floating type on the way counts as lost; index and mask arrays have given contents; no store may reach an argument's memory")


def check(prog, rep):
    rep.rule = RULE
    rep.level = "other"
    rep.assumptions = ["dimensions up to 4x3 / 2x3x4 stand for all (the code is uniform in them)", "symbolic strides are multiples of the item size in general position", "rustc's MIR for the crate as built", "the std and pyo3 models in sa/geom.py"]
    flowcheck.run(prog, rep, "C11", dts=("int64", "complex128"))
    rep.floor("calls decided", 8000)
