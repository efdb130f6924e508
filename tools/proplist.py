def M(*xs):
    return [dict(name=n, where=w) for n, w in xs]


prop("C01", "Type promotion and casting rules are NumPy's",
     "For every pair of boolean, integer, float and complex dtypes, the common dtype reported by promote_types (and used whenever arrays of two dtypes are combined) is the one NumPy gives, in both argument orders. For every such pair and every casting mode ('no', 'equiv', 'safe', 'same_kind', 'unsafe'), can_cast answers as NumPy does.",
     ["inputs"], "all 14x14 dtype pairs, both orders, all 5 casting modes",
     "The tests sample a few pairs; the table has 196 pairs and 980 casting questions, and an entry can be wrong in one order only.",
     ["src/array/dtype/mod.rs", "src/python/dtype.rs"], M(("promote_dtype", "src/array/dtype/mod.rs"), ("promote_types, can_cast", "src/python/dtype.rs")),
     "abstract interpretation of the promotion and casting functions over all dtype pairs", EXH)

prop("C02", "Elementwise operations return NumPy's result dtype",
     "For every elementwise arithmetic, comparison, logical, bitwise and mathematical operation and every combination of boolean/numeric operand dtypes that NumPy accepts, the dtype of the returned array is the one NumPy returns, whatever the shapes, strides or contents of the operands. (Left out: bool-bool subtraction, power, remainder and floor division, arithmetic unary operations on bool, and abs of complex, where rumpy documents its own answer.)",
     ["inputs"], "every operation x every dtype pair x all shapes, layouts and values",
     "Tests check values on a few dtypes with assert_eq that ignores dtype differences; the dtype of the other combinations, and of the path taken for other layouts, is never looked at.",
     ["src/ops/ufunc.rs", "src/ops/dispatch.rs", "src/ops/comparison.rs", "src/ops/bitwise.rs"],
     M(("map_binary_op, map_unary_op, map_compare_op", "src/ops/ufunc.rs"), ("logical_*", "src/ops/comparison.rs"), ("bitwise_*", "src/ops/bitwise.rs")),
     "abstract interpretation of the elementwise dispatchers with symbolic arrays, every operation x dtype pair", EXH)

prop("C03", "A dtype keeps its identity across names, type strings and exports",
     "For every dtype (numeric, datetime64/timedelta64 in each unit, strings and bytes), its item size, name, type string and buffer format are NumPy's, parsing any of its spellings gives back that dtype and no other, two dtypes compare equal exactly when they are the same, and big-endian or unknown type strings are refused rather than misread. finfo and iinfo report NumPy's limits, and an array's exported interface carries that array's own shape, strides, address and type string.",
     ["inputs"], "all 42 dtypes, all pairs for equality, all their spellings",
     "The tests sample a handful of dtypes; a wrong unit or size in one table entry reinterprets memory silently and only for that dtype.",
     ["src/array/dtype/mod.rs", "src/array/dtype/datetime64.rs", "src/python/dtype.rs", "src/python/creation.rs", "src/python/pyarray/mod.rs"],
     M(("DTypeOps metadata methods, DType::from_str, PartialEq", "src/array/dtype"), ("dtype_from_typestr", "src/python/creation.rs"), ("__array_interface__", "src/python/pyarray/mod.rs"), ("PyFinfo, PyIinfo", "src/python/dtype.rs")),
     "abstract interpretation of the dtype tables, parsers and the array-interface export", EXH)

CLS_Q = "every operation x every dtype pair x every class of element values x every traversal (contiguous, strided, broadcast)"
CLSN = ("Decided per class of element values: NaN, infinities, signed zeros, small numbers, type limits and conversion boundaries are classes of their own; inside an open class "
        "(such as all floats above 3) a wrong value that stays in the right class is not seen.")

prop("C04", "Array arithmetic stores NumPy's values, special values included",
     "For add, subtract, multiply, true_divide, power, remainder, floor_divide, maximum, minimum, fmax, fmin, arctan2, hypot, copysign, logaddexp, logaddexp2 and nextafter of two arrays of any bool, integer or float dtypes (equal or different), and for + - * / and the four extrema of complex arrays, every element of the result is what NumPy computes from the two elements: NaN and infinities propagate or are ignored as the operation defines, signed zeros are kept, integers wrap around, integer division by zero gives 0 and MIN by -1 wraps, and nothing panics. This holds whichever way the operands are laid out and also when the buffer of a temporary is reused for the result. (Remainder has C's sign convention, as documented; float floor division is the rounded-down quotient. Left out: sub, power, remainder and floor division of two bool arrays, division by a complex zero or of complex infinities, signs of complex zeros.)",
     ["inputs"], CLS_Q,
     "Tests sample a few ordinary values on a few dtypes; a special value that goes wrong in one dtype's kernel or in one traversal is never sampled.",
     ["src/ops/kernels/arithmetic.rs", "src/ops/ufunc.rs", "src/ops/dispatch.rs", "src/ops/loops", "src/array/dtype"],
     M(("BinaryKernel implementations", "src/ops/kernels/arithmetic.rs"), ("map_binary_op_inplace", "src/ops/ufunc.rs"), ("DTypeOps::binary_op", "src/array/dtype")),
     "abstract interpretation of MIR over a finite domain of element-value classes, compared with a table of NumPy results", CLSN)

prop("C05", "Comparisons, logical and bitwise operations store NumPy's truth values and bits",
     "For every comparison (==, != on all dtypes; <, <=, >, >= on bool, integer and float dtypes), logical_and/or/xor/not on all bool/numeric dtypes, and bitwise and/or/xor/not and shifts on all bool/integer dtypes (equal or different, for which NumPy has a common integer dtype), every element of the result is NumPy's: comparisons with NaN are false except !=, -0 equals 0, NaN counts as true, large integers compare exactly within their common dtype, shifts by the width or more give 0 or the sign. Boolean results are stored as exactly 0 or 1.",
     ["inputs"], CLS_Q,
     "Tests compare small ordinary numbers; NaN, extreme integers, mixed signedness and shift counts at the width are not sampled in every dtype and layout.",
     ["src/ops/kernels/comparison.rs", "src/ops/kernels/bitwise.rs", "src/ops/comparison.rs", "src/ops/bitwise.rs", "src/ops/ufunc.rs"],
     M(("CompareKernel implementations", "src/ops/kernels/comparison.rs"), ("map_compare_op", "src/ops/ufunc.rs"), ("logical_*", "src/ops/comparison.rs"), ("bitwise_*, *_shift", "src/ops/bitwise.rs")),
     "abstract interpretation of MIR over a finite domain of element-value classes, compared with a table of NumPy results", CLSN)

prop("C06", "Elementwise math functions store NumPy's values at special points",
     "For every one-argument elementwise function (negative, abs, sqrt, square, exp/exp2/expm1, log/log2/log10/log1p, trigonometric and hyperbolic functions and their inverses, floor, ceil, trunc, rint, sign, cbrt, reciprocal, isnan, isinf, isfinite, isneginf, isposinf, signbit) on every integer and float dtype, each stored element is NumPy's for NaN, infinities, signed zeros, the ends of the domain, halves and type limits (out-of-domain gives NaN, rint rounds halves to even, abs and negative of the smallest integer wrap), and lies in the right range in between; on complex dtypes this holds for negative, square, rint, trunc and the predicates, and on bool for the functions that return floats and the predicates.",
     ["inputs"], "every function x every dtype x every class of element values x every traversal",
     "Tests evaluate each function at a handful of ordinary points of float64.",
     ["src/ops/kernels/math.rs", "src/ops/ufunc.rs", "src/ops/dispatch.rs", "src/array/dtype"],
     M(("UnaryKernel and PredicateKernel implementations", "src/ops/kernels/math.rs"), ("map_unary_op", "src/ops/ufunc.rs"), ("DTypeOps::unary_op", "src/array/dtype")),
     "abstract interpretation of MIR over a finite domain of element-value classes, compared with a table of NumPy results", CLSN)

prop("C07", "astype converts every element as NumPy does",
     "For every pair of bool, integer, float and complex dtypes and every element: integer to integer conversion is exact or wraps to the target's width (also beyond 2**53), any nonzero value including NaN becomes True, float to float conversion rounds, overflows to infinity and keeps NaN, infinities and signed zeros, complex to real keeps the real part and real to complex adds a zero imaginary part, and float to integer truncates towards zero for values the target can hold. The layout of the source does not matter.",
     ["inputs"], "14x14 dtype pairs x every class of element values x every traversal",
     "Tests convert small numbers between a few dtypes.",
     ["src/array/mod.rs", "src/array/dtype"],
     M(("RumpyArray::astype", "src/array/mod.rs"), ("DTypeOps read_*/write_*", "src/array/dtype")),
     "abstract interpretation of MIR over a finite domain of element-value classes, compared with a table of NumPy results", CLSN)

prop("C08", "Array memory is read and written only as the element type of its dtype",
     "Every function that takes or makes arrays, called with arrays of any dtype (boolean, integer, float, complex, datetime64, timedelta64, string) and any mix of dtypes, shapes and layouts, reads and writes the elements of each array as the type that array's own dtype stores: a uint32 element is never compared as int32, a mask of another dtype is never read as bytes, a second operand is never read as the first one's dtype, and results are written as the dtype the returned array carries. Where a function only supports some dtypes, other arrays are converted or refused first.",
     ["inputs"], "every array function reachable from Python x every dtype and mixed dtype pairs x all shapes, layouts and values",
     "Tests call each function with one or two dtypes; a wrong arm of a dtype dispatch or an unconverted second operand reinterprets (or reads past) memory only for dtypes that no test uses.",
     ["src/ops", "src/array", "src/python"],
     M(("typed kernels and dtype dispatch", "src/ops/dispatch.rs"), ("array methods", "src/ops/array_methods"), ("raw-pointer code of the Python layer", "src/python/misc.rs"), ("DTypeOps element access", "src/array/dtype")),
     "abstract interpretation of MIR with symbolic arrays: type of every raw-pointer access against the dtype of the buffer it is derived from",
     "every load, store, slice and copy whose address resolves to an array of known dtype is decided; accesses through addresses the interpreter cannot resolve (about a sixth, counted in the evidence) are not judged; trusts rustc's MIR and the std models")

prop("C09", "Elements are addressed through the array's own offset and strides",
     "Every function that takes arrays finds each element through that array's own offset and strides. A view that starts inside its base, a transposed, reversed, stepped or broadcast array is never read (or written) as if its elements were stored consecutively from the start: code that walks memory consecutively runs only after establishing that this very array is contiguous, or on a fresh contiguous copy, and no array is walked with the strides or the offset of another one. So f(view) gives what f(view.copy()) gives.",
     ["inputs"], "every array function reachable from Python x all layouts (offsets, strides, broadcasts) of every argument",
     "Tests mostly pass contiguous arrays; an unguarded fast path, the test of the wrong operand, or swapped strides show only for views of a particular layout.",
     ["src/ops", "src/array", "src/python"],
     M(("strided and contiguous loops", "src/ops/loops"), ("dispatch of traversals", "src/ops/dispatch.rs"), ("views", "src/array/views.rs"), ("raw-pointer code of the Python layer", "src/python/misc.rs"), ("string functions", "src/ops/char.rs")),
     "abstract interpretation of MIR with symbolic arrays: data flow from offsets, strides and contiguity tests into the address of every raw-pointer access",
     "every access whose address resolves to one argument array is decided; that the right stride is paired with the right index is not; unresolved addresses (counted in the evidence) are not judged; trusts rustc's MIR and the std models")

FLOWN = ("decided for the listed calls over all layouts and element values; array dimensions are small concrete ones (up to 4 axes of at most 12), so a fault that needs a larger axis is not seen; "
         "strides are multiples of the item size in general position; trusts rustc's MIR and the std and pyo3 models")

prop("C10", "Indexing, axis moves, splitting and reshaping select NumPy's elements",
     "Basic indexing (integers, slices with any start, stop and step, ellipsis, newaxis and tuples of them), transpose, permute_dims, matrix_transpose, swapaxes, moveaxis, rollaxis, flip/fliplr/flipud, rot90, expand_dims, squeeze, atleast_1d/2d/3d, diagonal, reshape, ravel, flatten, broadcast_to, broadcast_arrays and the split functions give an array of NumPy's dimensions in which every element is the very element NumPy's result has at that position, for arguments of any memory layout (contiguous in either order, strided, reversed, broadcast). Where NumPy returns a view the result shares the argument's memory and where it copies it does not; a result is flagged contiguous only if its elements are consecutive; indices and axes out of range are refused with an exception; the argument is never written.",
     ["inputs"], "every such function x index/axis arguments x all layouts, offsets and element values",
     "Tests try some indices on freshly made contiguous arrays; an off-by-one for a step of -3, a forgotten offset or axis, or a stale contiguity flag shows only for particular index and layout combinations.",
     ["src/array/views.rs", "src/array/manipulation.rs", "src/python/shape.rs", "src/python/pyarray"],
     M(("slice_axis, reshape, transpose, flip, squeeze, expand_dims, broadcast_to", "src/array/views.rs"), ("__getitem__", "src/python/pyarray/dunder_item.rs"), ("split, rot90", "src/array/manipulation.rs"), ("Python-level functions", "src/python/shape.rs")),
     "abstract interpretation of MIR in a relational domain of linear address terms over symbolic offsets and strides; result element addresses compared with NumPy's index map", FLOWN)

prop("C11", "Moving, joining, repeating and selecting places exactly NumPy's elements",
     "concatenate, stack and its variants, append, insert, delete, roll, repeat, tile, resize, pad, copy, array, astype, tril/triu, diagflat, take, take_along_axis, compress, extract, boolean and integer-array indexing, where, select, choose, meshgrid, block, unstack, transpose and the functions making index arrays (eye, tri, indices, nonzero, argwhere, unravel_index, ravel_multi_index, ...) give an array of NumPy's dimensions whose every element is a bit-exact copy of the element (or the constant) NumPy puts there, for arguments of any memory layout and for real, 64-bit integer and complex elements; the result has its own memory where NumPy's has; arguments are never written; positions and axes out of range are refused.",
     ["inputs"], "every such function x listed index, shift, width and axis arguments x all layouts, offsets and element values",
     "Tests move float64 values in fresh contiguous arrays; a wrong position for a negative index, a value passed through f64 (losing imaginary parts or low bits), or an aliased result shows only for particular argument, type and layout combinations.",
     ["src/array/manipulation.rs", "src/ops/indexing.rs", "src/python/shape.rs", "src/python/misc.rs", "src/python/creation.rs", "src/python/indexing.rs"],
     M(("concatenate, insert, delete, pad, repeat, tile, roll", "src/array/manipulation.rs"), ("take, compress, choose, unravel_index", "src/ops/indexing.rs"), ("where_select", "src/ops/mod.rs"), ("extract, select", "src/python/misc.rs"), ("array, astype", "src/array/mod.rs")),
     "abstract interpretation of MIR in a memory domain that tracks which argument element each byte range holds; compared with the element map NumPy has for the same call", FLOWN)

prop("C14", "Products of arrays are NumPy's sums of products",
     "matmul, @, dot, inner, outer, vdot, kron, cross, trace, tensordot, einsum, matrix_power and multi_dot give an array of NumPy's dimensions whose every element is exactly the sum of products NumPy defines for that position, for arguments of any memory layout and for real, 64-bit integer (no rounding through floats) and complex elements (both parts), empty and single-element operands included. Operands whose dimensions do not fit are refused with an exception, and operands are never written.",
     ["inputs"], "every product function x operand dimensions and subscripts x all layouts, offsets and element values",
     "Tests multiply small float64 matrices in fresh contiguous arrays; a transposed or broadcast operand taken with the wrong stride, a lost imaginary part or low bit, or a term counted twice shows only for particular dimension, type and layout combinations.",
     ["src/ops/matmul.rs", "src/ops/dot.rs", "src/ops/inner.rs", "src/ops/outer.rs", "src/ops/linalg.rs", "src/ops/einsum.rs", "src/ops/gufunc.rs"],
     M(("matmul", "src/ops/matmul.rs"), ("dot, inner, outer", "src/ops/dot.rs"), ("kron, cross, tensordot, vdot, matrix_power, multi_dot", "src/ops/linalg.rs"), ("einsum", "src/ops/einsum.rs")),
     "abstract interpretation of MIR in a polynomial domain over argument elements; every stored element compared with NumPy's sum of products", FLOWN)


na("N01", "Floating-point results are as accurate as NumPy's",
   "Transcendental functions, float sums, means and variances are within a few units in the last place of NumPy's result for every finite input.",
   ["inputs"], "every finite input", "Tests compare a few points with a tolerance.", ["src/ops/kernels", "src/ops/array_methods/reductions.rs"], M(("UnaryKernel implementations", "src/ops/kernels/math.rs")),
   "the rounding error of a result depends on run-time values through libm and the order of summation; a sound static bound would be far above the guarantee, and confirming it by running is another technique")
na("N02", "Decompositions, solvers and Fourier transforms satisfy their defining equations",
   "svd, qr, eigh, cholesky, solve, inv, lstsq, pinv and fft/ifft return factors whose product (inverse transform) is the argument, up to rounding.",
   ["inputs"], "every matrix or signal", "Tests take a few small matrices.", ["src/ops/linalg.rs", "src/ops/solve.rs", "src/ops/fft.rs"], M(("svd, qr, eigh, solve", "src/ops/linalg.rs"), ("fft", "src/ops/fft.rs")),
   "the results come from iterative or butterfly algorithms inside faer and rustfft whose truth is an approximation to equations over the reals; no static argument in reach relates their MIR to those equations")
na("N03", "Random variates follow their named distribution",
   "Samples drawn by Generator methods follow the distribution they are named for, over its whole parameter range.",
   ["inputs"], "every parameter and seed", "A moment test on one seed says little.", ["src/random"], M(("Generator methods", "src/random/mod.rs")),
   "a statistical statement about outcomes over seeds; static analysis of the sampling code does not decide it")
na("N04", "No call panics",
   "Every Python-level call either returns or raises a Python exception; no argument makes the library panic or loop forever.",
   ["inputs"], "every call with every argument", "Tests make a handful of invalid calls.", ["src/python", "src/ops"], M(("pyfunctions and pymethods", "src/python")),
   "thousands of indexing, slicing, division and unwrap sites are safe only by relations between run-time lengths that no static argument in reach bounds (C10, C11 and C14 decide it for the calls they list)")
