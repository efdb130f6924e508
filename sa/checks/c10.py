"""C10: basic indexing, axis manipulation, splitting and reshaping select exactly NumPy's elements, as views where NumPy does."""
import flowcheck

RULE = ("each Python-level call is interpreted over its MIR with arrays of concrete dimensions whose offset and strides are symbols (C, Fortran, arbitrary and broadcast layouts); dimensions of the result, the byte address every result element denotes, "
        "its buffer and its contiguity flags are derived as linear terms and compared with the element map NumPy has for the same call; no store may reach an argument's memory")


def check(prog, rep):
    rep.rule = RULE
    rep.level = "other"
    rep.assumptions = ["dimensions up to 4x3 / 2x3x4 stand for all (the code is uniform in them)", "symbolic strides are multiples of the item size in general position", "rustc's MIR for the crate as built", "the std and pyo3 models in sa/geom.py"]
    flowcheck.run(prog, rep, "C10", dts=("int16", "int64", "complex128"))
    rep.floor("calls decided", 9000)
