"""C14: products of arrays (matmul, dot, inner, outer, kron, tensordot, einsum, ...) sum exactly NumPy's products."""
import flowcheck

RULE = ("each Python-level call is interpreted over its MIR with arrays of concrete dimensions whose offset and strides are symbols; every stored element is derived as a polynomial over the argument elements (addressed through offset and strides) and must be, coefficient by coefficient, "
        "NumPy's sum of products for that position; for integer arrays no rounding to a floating type may occur on the way, for complex arrays both parts are compared; result dimensions are NumPy's, impossible ones are refused, no store reaches an argument's memory")


def check(prog, rep):
    rep.rule = RULE
    rep.level = "other"
    rep.assumptions = ["dimensions up to 5 stand for all (the code is uniform in them)", "polynomials are compared in exact arithmetic: association and rounding of float sums are not judged", "faer's matmul computes the product its views denote",
                       "symbolic strides are multiples of the item size in general position", "rustc's MIR for the crate as built", "the std and pyo3 models in sa/geom.py"]
    flowcheck.run(prog, rep, "C14", dts=("int64", "complex128"))
    rep.floor("calls decided", 1200)
