From 13e9367117d45122bec0c0123bff5fe57895a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:57 +0000
Subject: [PATCH 01/70] fix: exp2, expm1, log1p, cbrt, rint and inverse
 hyperbolics of integer arrays return floats

They were computed in floating point and truncated back into the integer
dtype (log1p([1, 2]) gave [0, 1]).
---
 src/ops/ufunc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index d11dcdb..ecc4a01 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -46,7 +46,9 @@ fn is_transcendental(op: UnaryOp) -> bool {
     matches!(op, UnaryOp::Exp | UnaryOp::Log | UnaryOp::Log10 | UnaryOp::Log2 | UnaryOp::Sqrt |
                  UnaryOp::Sin | UnaryOp::Cos | UnaryOp::Tan |
                  UnaryOp::Sinh | UnaryOp::Cosh | UnaryOp::Tanh |
-                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan)
+                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan |
+                 UnaryOp::Exp2 | UnaryOp::Expm1 | UnaryOp::Log1p | UnaryOp::Cbrt | UnaryOp::Rint |
+                 UnaryOp::Arcsinh | UnaryOp::Arccosh | UnaryOp::Arctanh)
 }
 
 /// Check if dtype is an integer type.
-- 
2.43.0


From 4e2469b529e2f3dca02eaa694a421a95c01708b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:15 +0000
Subject: [PATCH 02/70] fix: true division of bool arrays returns float64

bool/bool stayed bool and bool/int8 became float16.
---
 src/ops/ufunc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index ecc4a01..d181db5 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -184,8 +184,9 @@ pub fn map_binary_op_inplace(
 ) -> Result<RumpyArray, BinaryOpError> {
     // Handle division type promotion
     if op == BinaryOp::Div {
-        let a_int = is_integer_kind(&a.dtype().kind());
-        let b_int = is_integer_kind(&b.dtype().kind());
+        let divides_as_int = |k: DTypeKind| is_integer_kind(&k) || k == DTypeKind::Bool;
+        let a_int = divides_as_int(a.dtype().kind());
+        let b_int = divides_as_int(b.dtype().kind());
         if a_int && b_int {
             let a_f64 = a.astype(DType::float64());
             let b_f64 = b.astype(DType::float64());
-- 
2.43.0


From 1f076d2338aee166ad728d332a1ea031c2edb609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:54 +0000
Subject: [PATCH 03/70] fix: can_cast follows NumPy's casting rules

int64 to complex64 counted as safe, int64 to float64 did not, equal item
size counted as equivalent, and same_kind refused float64 to complex64 but
allowed signed to unsigned.
---
 src/python/dtype.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 20be57d..1fac05d 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -344,7 +344,7 @@ pub fn can_cast(from_dtype: &Bound<'_, PyAny>, to_dtype: &Bound<'_, PyAny>, cast
 
     match casting {
         "no" => Ok(from_dt == to_dt),
-        "equiv" => Ok(from_dt == to_dt || (from_dt.itemsize() == to_dt.itemsize())),
+        "equiv" => Ok(from_dt == to_dt),
         "safe" => Ok(can_cast_safe(&from_dt, &to_dt)),
         "same_kind" => Ok(can_cast_same_kind(&from_dt, &to_dt)),
         "unsafe" => Ok(true),  // Anything can cast unsafely
@@ -407,7 +407,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
     if (is_signed(&fk) || is_unsigned(&fk)) && is_float(&tk) {
         let from_bits = int_bits(&fk);
         return match tk {
-            Float64 => from_bits <= 32,  // float64 can exactly represent int32
+            Float64 => true,             // like NumPy, also 64-bit integers
             Float32 => from_bits <= 16,  // float32 can exactly represent int16
             Float16 => from_bits <= 8,   // float16 can exactly represent small ints
             _ => false,
@@ -416,7 +416,8 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
 
     // Integer to complex
     if (is_signed(&fk) || is_unsigned(&fk)) && is_complex(&tk) {
-        return true;  // Complex can hold any integer
+        // complex64 has float32 components
+        return matches!(tk, Complex128) || int_bits(&fk) <= 16;
     }
 
     // Signed int to larger signed int
@@ -448,23 +449,22 @@ fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
     let fk = from.kind();
     let tk = to.kind();
 
-    let is_int = |k: &DTypeKind| matches!(k, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64);
+    let is_signed = |k: &DTypeKind| matches!(k, Int8 | Int16 | Int32 | Int64);
+    let is_int = |k: &DTypeKind| is_signed(k) || matches!(k, Uint8 | Uint16 | Uint32 | Uint64);
     let is_float = |k: &DTypeKind| matches!(k, Float16 | Float32 | Float64);
     let is_complex = |k: &DTypeKind| matches!(k, Complex64 | Complex128);
 
-    // Int to int (any direction)
+    // Int to int, but not from signed to unsigned
     if is_int(&fk) && is_int(&tk) {
-        return true;
+        return is_signed(&tk) || !is_signed(&fk);
     }
 
-    // Float to float (any direction)
-    if is_float(&fk) && is_float(&tk) {
-        return true;
+    // Numbers to a wider kind, or within the kind
+    if is_float(&tk) {
+        return is_int(&fk) || is_float(&fk);
     }
-
-    // Complex to complex (any direction)
-    if is_complex(&fk) && is_complex(&tk) {
-        return true;
+    if is_complex(&tk) {
+        return is_int(&fk) || is_float(&fk) || is_complex(&fk);
     }
 
     false
-- 
2.43.0


From b3631c2c0e112e9f46445e31b5228b8ac354a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:19 +0000
Subject: [PATCH 04/70] fix: arctan2, hypot, copysign, logaddexp(2) and
 nextafter of integer arrays return floats

---
 src/ops/ufunc.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index d181db5..9d7e80f 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -51,6 +51,12 @@ fn is_transcendental(op: UnaryOp) -> bool {
                  UnaryOp::Arcsinh | UnaryOp::Arccosh | UnaryOp::Arctanh)
 }
 
+/// Check if a binary op computes in floating point whatever its operand types.
+fn is_float_binary(op: BinaryOp) -> bool {
+    matches!(op, BinaryOp::Arctan2 | BinaryOp::Hypot | BinaryOp::Copysign |
+                 BinaryOp::Logaddexp | BinaryOp::Logaddexp2 | BinaryOp::Nextafter)
+}
+
 /// Check if dtype is an integer type.
 pub(crate) fn is_integer_kind(kind: &DTypeKind) -> bool {
     matches!(kind, DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64 |
@@ -182,12 +188,12 @@ pub fn map_binary_op_inplace(
     op: BinaryOp,
     out: Option<RumpyArray>,
 ) -> Result<RumpyArray, BinaryOpError> {
-    // Handle division type promotion
-    if op == BinaryOp::Div {
+    // Handle division and float-only type promotion
+    if op == BinaryOp::Div || is_float_binary(op) {
         let divides_as_int = |k: DTypeKind| is_integer_kind(&k) || k == DTypeKind::Bool;
         let a_int = divides_as_int(a.dtype().kind());
         let b_int = divides_as_int(b.dtype().kind());
-        if a_int && b_int {
+        if op == BinaryOp::Div && a_int && b_int {
             let a_f64 = a.astype(DType::float64());
             let b_f64 = b.astype(DType::float64());
             return map_binary_op_inplace(&a_f64, &b_f64, op, None);
-- 
2.43.0


From 6cbf64b2bacd6e94a7a22bcc7cf061c8501f69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 05/70] fix: importing a foreign array with a dtype converts
 its values instead of reinterpreting its memory

---
 src/python/creation.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index f8e5794..7838cd2 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -365,10 +365,10 @@ fn from_array_interface(
 
     // Extract typestr to determine dtype
     let typestr: String = interface.get_item("typestr")?.extract()?;
-    let dtype = if let Some(dt) = dtype_override {
-        parse_dtype_any(dt)?
-    } else {
-        dtype_from_typestr(&typestr)?
+    let dtype = dtype_from_typestr(&typestr)?;
+    let target_dtype = match dtype_override {
+        Some(dt) => parse_dtype_any(dt)?,
+        None => dtype.clone(),
     };
 
     // Extract data pointer
@@ -395,7 +395,7 @@ fn from_array_interface(
     let mut arr = RumpyArray::zeros(shape.clone(), dtype);
 
     if size == 0 {
-        return Ok(PyRumpyArray::new(arr));
+        return Ok(PyRumpyArray::new(RumpyArray::zeros(shape, target_dtype)));
     }
 
     // Copy data respecting strides
@@ -425,6 +425,9 @@ fn from_array_interface(
         increment_indices(&mut indices, &shape);
     }
 
+    if dtype != target_dtype {
+        arr = arr.astype(target_dtype);
+    }
     Ok(PyRumpyArray::new(arr))
 }
 
-- 
2.43.0


From 358c6cf271475eceaf46db31bf1218b48bcd1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:35 +0000
Subject: [PATCH 06/70] fix: string arrays export their length in the type
 string (array interface, .npy)

---
 src/array/dtype/mod.rs | 10 ++++++++--
 src/ops/io.rs          |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 7c56589..18b23bf 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -411,8 +411,14 @@ impl DType {
     #[inline]
     pub fn itemsize(&self) -> usize { self.0.itemsize() }
 
-    #[inline]
-    pub fn typestr(&self) -> &'static str { self.0.typestr() }
+    /// NumPy type string, with the length of string types filled in.
+    pub fn typestr(&self) -> String {
+        match self.kind() {
+            DTypeKind::Str(n) => format!("<U{}", n),
+            DTypeKind::Bytes(n) => format!("|S{}", n),
+            _ => self.0.typestr().to_string(),
+        }
+    }
 
     #[inline]
     pub fn format_char(&self) -> &'static str { self.0.format_char() }
diff --git a/src/ops/io.rs b/src/ops/io.rs
index 5e70630..bf684be 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -379,7 +379,7 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 /// Write array in NPY format to a writer.
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
-    let descr = arr.dtype().ops().typestr();
+    let descr = arr.dtype().typestr();
     let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
     let shape_str = format!(
         "({}{})",
-- 
2.43.0


From 54c9ee18f342d880d8c1b00eceabe65257e359d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:35 +0000
Subject: [PATCH 07/70] fix: .npy files of Fortran-ordered arrays declare the C
 order they are written in

---
 src/ops/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index bf684be..b420850 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -380,7 +380,8 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
     let descr = arr.dtype().typestr();
-    let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
+    // The data below is always written in C order
+    let fortran_order = false;
     let shape_str = format!(
         "({}{})",
         arr.shape()
-- 
2.43.0


From 61db9fc53adcb2693c5618e4349ea2c74d97db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:35 +0000
Subject: [PATCH 08/70] fix: .npy headers with an unreadable dimension are
 refused instead of losing it

---
 src/ops/io.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index b420850..cb41857 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -617,19 +617,12 @@ fn extract_shape(header: &str) -> Result<Vec<usize>, String> {
                 let shape_str = &rest[..end];
 
                 // Parse shape values
-                let shape: Vec<usize> = shape_str
+                return shape_str
                     .split(',')
-                    .filter_map(|s| {
-                        let trimmed = s.trim();
-                        if trimmed.is_empty() {
-                            None
-                        } else {
-                            trimmed.parse().ok()
-                        }
-                    })
+                    .map(|s| s.trim())
+                    .filter(|s| !s.is_empty())
+                    .map(|s| s.parse().map_err(|_| format!("Invalid shape in header: ({})", shape_str)))
                     .collect();
-
-                return Ok(shape);
             }
         }
     }
-- 
2.43.0


From 7d74f20680865fc7887c61f6618975a6be6017ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:58 +0000
Subject: [PATCH 09/70] fix: big-endian foreign data is refused instead of
 misread

---
 src/array/dtype/mod.rs | 40 ++++++++++++++++++++--------------------
 src/python/creation.rs |  7 +++++++
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 18b23bf..34647fb 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -447,27 +447,27 @@ impl FromStr for DType {
             "uint64" | "u8" | "<u8" => Ok(Self::uint64()),
             "bool" | "?" | "|b1" => Ok(Self::bool()),
             // datetime64 - all units
-            "datetime64[Y]" | "<M8[Y]" | ">M8[Y]" => Ok(Self::datetime64_y()),
-            "datetime64[M]" | "<M8[M]" | ">M8[M]" => Ok(Self::datetime64_m()),
-            "datetime64[W]" | "<M8[W]" | ">M8[W]" => Ok(Self::datetime64_w()),
-            "datetime64[D]" | "<M8[D]" | ">M8[D]" => Ok(Self::datetime64_d()),
-            "datetime64[h]" | "<M8[h]" | ">M8[h]" => Ok(Self::datetime64_h()),
-            "datetime64[m]" | "<M8[m]" | ">M8[m]" => Ok(Self::datetime64_min()),
-            "datetime64[s]" | "<M8[s]" | ">M8[s]" => Ok(Self::datetime64_s()),
-            "datetime64[ms]" | "<M8[ms]" | ">M8[ms]" => Ok(Self::datetime64_ms()),
-            "datetime64[us]" | "<M8[us]" | ">M8[us]" => Ok(Self::datetime64_us()),
-            "datetime64[ns]" | "<M8[ns]" | ">M8[ns]" => Ok(Self::datetime64_ns()),
+            "datetime64[Y]" | "<M8[Y]" => Ok(Self::datetime64_y()),
+            "datetime64[M]" | "<M8[M]" => Ok(Self::datetime64_m()),
+            "datetime64[W]" | "<M8[W]" => Ok(Self::datetime64_w()),
+            "datetime64[D]" | "<M8[D]" => Ok(Self::datetime64_d()),
+            "datetime64[h]" | "<M8[h]" => Ok(Self::datetime64_h()),
+            "datetime64[m]" | "<M8[m]" => Ok(Self::datetime64_min()),
+            "datetime64[s]" | "<M8[s]" => Ok(Self::datetime64_s()),
+            "datetime64[ms]" | "<M8[ms]" => Ok(Self::datetime64_ms()),
+            "datetime64[us]" | "<M8[us]" => Ok(Self::datetime64_us()),
+            "datetime64[ns]" | "<M8[ns]" => Ok(Self::datetime64_ns()),
             // timedelta64 - all units
-            "timedelta64[Y]" | "<m8[Y]" | ">m8[Y]" => Ok(Self::timedelta64_y()),
-            "timedelta64[M]" | "<m8[M]" | ">m8[M]" => Ok(Self::timedelta64_m()),
-            "timedelta64[W]" | "<m8[W]" | ">m8[W]" => Ok(Self::timedelta64_w()),
-            "timedelta64[D]" | "<m8[D]" | ">m8[D]" => Ok(Self::timedelta64_d()),
-            "timedelta64[h]" | "<m8[h]" | ">m8[h]" => Ok(Self::timedelta64_h()),
-            "timedelta64[m]" | "<m8[m]" | ">m8[m]" => Ok(Self::timedelta64_min()),
-            "timedelta64[s]" | "<m8[s]" | ">m8[s]" => Ok(Self::timedelta64_s()),
-            "timedelta64[ms]" | "<m8[ms]" | ">m8[ms]" => Ok(Self::timedelta64_ms()),
-            "timedelta64[us]" | "<m8[us]" | ">m8[us]" => Ok(Self::timedelta64_us()),
-            "timedelta64[ns]" | "<m8[ns]" | ">m8[ns]" => Ok(Self::timedelta64_ns()),
+            "timedelta64[Y]" | "<m8[Y]" => Ok(Self::timedelta64_y()),
+            "timedelta64[M]" | "<m8[M]" => Ok(Self::timedelta64_m()),
+            "timedelta64[W]" | "<m8[W]" => Ok(Self::timedelta64_w()),
+            "timedelta64[D]" | "<m8[D]" => Ok(Self::timedelta64_d()),
+            "timedelta64[h]" | "<m8[h]" => Ok(Self::timedelta64_h()),
+            "timedelta64[m]" | "<m8[m]" => Ok(Self::timedelta64_min()),
+            "timedelta64[s]" | "<m8[s]" => Ok(Self::timedelta64_s()),
+            "timedelta64[ms]" | "<m8[ms]" => Ok(Self::timedelta64_ms()),
+            "timedelta64[us]" | "<m8[us]" => Ok(Self::timedelta64_us()),
+            "timedelta64[ns]" | "<m8[ns]" => Ok(Self::timedelta64_ns()),
             "complex64" | "c8" | "<c8" => Ok(Self::complex64()),
             "complex128" | "c16" | "<c16" => Ok(Self::complex128()),
             "str" | "str_" => Ok(Self::str_(0)), // default to 0 (determined from data)
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 7838cd2..a04f739 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -679,6 +679,13 @@ fn flatten_nested_list_bytes(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>,
 fn dtype_from_typestr(typestr: &str) -> PyResult<DType> {
     use crate::array::dtype::TimeUnit;
 
+    if typestr.starts_with('>') {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "Big-endian data is not supported: {}",
+            typestr
+        )));
+    }
+
     // Handle datetime64: "<M8[ns]", "<M8[us]", etc.
     if typestr.starts_with("<M8[") || typestr.starts_with(">M8[") {
         // Extract unit from M8[unit]
-- 
2.43.0


From 74ba57dba9b33bb0f1f49d3aed400cd36c47f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:04 +0000
Subject: [PATCH 10/70] fix: finfo reports exact float16 and float32 limits

---
 src/python/dtype.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 1fac05d..712d2ad 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -51,12 +51,12 @@ impl PyFinfo {
             "float16" => Ok(Self {
                 dtype: "float16".to_string(),
                 bits: 16,
-                eps: 0.000977,  // 2^-10
+                eps: 0.0009765625,  // 2^-10
                 max: 65504.0,
                 min: -65504.0,
-                tiny: 6.104e-5,  // smallest positive normal
-                smallest_normal: 6.104e-5,
-                smallest_subnormal: 5.96e-8,
+                tiny: 6.103515625e-5,  // smallest positive normal: 2^-14
+                smallest_normal: 6.103515625e-5,
+                smallest_subnormal: 5.960464477539063e-8,  // 2^-24
                 machep: -10,
                 negep: -11,
                 minexp: -14,
@@ -72,7 +72,7 @@ impl PyFinfo {
                 min: f32::MIN as f64,
                 tiny: f32::MIN_POSITIVE as f64,
                 smallest_normal: f32::MIN_POSITIVE as f64,
-                smallest_subnormal: 1.4e-45,
+                smallest_subnormal: f32::from_bits(1) as f64,
                 machep: -23,
                 negep: -24,
                 minexp: -126,
-- 
2.43.0


From 55d451b885fe45186d09ad1f7724454992eabfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:45 +0000
Subject: [PATCH 11/70] fix: astype from complex keeps the values instead of
 writing zeros

---
 src/array/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 2ccb842..02fdb05 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -414,8 +414,15 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                (DTypeKind::Complex64 | DTypeKind::Complex128, _) => {
+                    // Complex source: write_complex keeps the part(s) the target can hold
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let (re, im) = unsafe { src_ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                        unsafe { dst_ops.write_complex(result_ptr, i, re, im); }
+                    }
+                }
                 _ => {
-                    // Cross-dtype conversion via f64 (lossy for complex)
+                    // Cross-dtype conversion via f64
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                         unsafe { dst_ops.write_f64(result_ptr, i, val); }
-- 
2.43.0


From c21d92c5a957deceeaa1f82e062bde89abcea92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:28 +0000
Subject: [PATCH 12/70] fix: integer astype is exact beyond 2**53 and wraps
 like NumPy

---
 src/array/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 02fdb05..74f83ff 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -36,6 +36,13 @@ pub struct RumpyArray {
     pub(crate) flags: ArrayFlags,
 }
 
+/// Bool and integer dtypes, whose elements fit read_i64/write_i64 bit for bit.
+fn holds_integers(kind: &DTypeKind) -> bool {
+    matches!(kind, DTypeKind::Bool
+        | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+        | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64)
+}
+
 impl RumpyArray {
     /// Get array shape.
     pub fn shape(&self) -> &[usize] {
@@ -421,6 +428,13 @@ impl RumpyArray {
                         unsafe { dst_ops.write_complex(result_ptr, i, re, im); }
                     }
                 }
+                _ if holds_integers(&src_kind) && holds_integers(&dst_kind) => {
+                    // Integer to integer: exact, wrapping like a C cast
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let val = unsafe { src_ops.read_i64(src_ptr, offset) }.unwrap_or(0);
+                        unsafe { dst_ops.write_i64(result_ptr, i, val); }
+                    }
+                }
                 _ => {
                     // Cross-dtype conversion via f64
                     for (i, offset) in self.iter_offsets().enumerate() {
-- 
2.43.0


From 9c847c721a397ea3739c3365657247829a5389ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:05 +0000
Subject: [PATCH 13/70] fix: operations on arrays of different dtypes compute
 in the promoted dtype instead of float64

---
 src/ops/ufunc.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 9d7e80f..e038300 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -63,6 +63,12 @@ pub(crate) fn is_integer_kind(kind: &DTypeKind) -> bool {
              DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64)
 }
 
+/// Check if dtype is bool, integer, float or complex.
+fn is_numeric_kind(kind: &DTypeKind) -> bool {
+    is_integer_kind(kind) || matches!(kind, DTypeKind::Bool | DTypeKind::Float16 | DTypeKind::Float32 |
+             DTypeKind::Float64 | DTypeKind::Complex64 | DTypeKind::Complex128)
+}
+
 // ============================================================================
 // Unary operations
 // ============================================================================
@@ -215,6 +221,14 @@ pub fn map_binary_op_inplace(
         }
     }
 
+    // Different numeric dtypes: compute in the promoted dtype (like NumPy)
+    if a.dtype() != b.dtype() && is_numeric_kind(&a.dtype().kind()) && is_numeric_kind(&b.dtype().kind()) {
+        let common = promote_dtype(&a.dtype(), &b.dtype());
+        let a_common = if a.dtype() == common { a.clone() } else { a.astype(common.clone()) };
+        let b_common = if b.dtype() == common { b.clone() } else { b.astype(common) };
+        return map_binary_op_inplace(&a_common, &b_common, op, None);
+    }
+
     let out_shape = broadcast_shapes(a.shape(), b.shape()).ok_or(BinaryOpError::ShapeMismatch)?;
     let a_bc = a.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
     let b_bc = b.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
-- 
2.43.0


From 1d18de0db5b805929c6a1b94c96a4a21fd06ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:13 +0000
Subject: [PATCH 14/70] fix: bitwise operations on different integer dtypes
 convert instead of reading past the narrower operand

---
 src/ops/bitwise.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index bba3c9f..3a345a7 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -13,7 +13,10 @@ use crate::ops::dispatch;
 /// Apply a binary bitwise operation element-wise, preserving dtype.
 fn map_binary_bitwise(a: &RumpyArray, b: &RumpyArray, op: BitwiseOp) -> Option<RumpyArray> {
     let out_dtype = promote_dtype(&a.dtype(), &b.dtype());
-    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(a, b, out_dtype.clone())?;
+    // The kernels below read both operands as the result dtype
+    let a = if a.dtype() == out_dtype { a.clone() } else { a.astype(out_dtype.clone()) };
+    let b = if b.dtype() == out_dtype { b.clone() } else { b.astype(out_dtype.clone()) };
+    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(&a, &b, out_dtype.clone())?;
 
     if result.size() == 0 {
         return Some(result);
-- 
2.43.0


From 24695e22f65ca642df25f599f952ed5ba5b19f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:33 +0000
Subject: [PATCH 15/70] fix: integer floor division rounds down and MIN by -1
 wraps instead of panicking

---
 src/array/dtype/macros.rs     |  6 +++---
 src/ops/kernels/arithmetic.rs | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c9c715d..8e5da77 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -310,10 +310,10 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
                     BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av.div_euclid(bv) } else { 0 },
+                    BinaryOp::Mod => if bv != 0 { av.wrapping_rem(bv) } else { 0 },
+                    BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index c7d3a61..ce685d1 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -452,11 +452,18 @@ macro_rules! impl_int_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a % b } }
+            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a.wrapping_rem(b) } }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a / b } }
+            #[allow(unused_comparisons)]
+            fn apply(a: $T, b: $T) -> $T {
+                if b == $zero { return $zero; }
+                let q = a.wrapping_div(b);
+                let r = a.wrapping_rem(b);
+                // Round towards negative infinity
+                if r != $zero && (r < $zero) != (b < $zero) { q.wrapping_sub($one) } else { q }
+            }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
-- 
2.43.0


From 9f0a2bd560b8f50ebe7ba0bb56592c0a425e46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 16/70] fix: logaddexp and logaddexp2 propagate NaN

---
 src/array/dtype/float16.rs    | 4 ++--
 src/array/dtype/macros.rs     | 4 ++--
 src/ops/kernels/arithmetic.rs | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e527191..8364485 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -108,12 +108,12 @@ impl DTypeOps for Float16Ops {
             BinaryOp::Copysign => av.copysign(bv),
             BinaryOp::Logaddexp => {
                 let m = av.max(bv);
-                if m.is_infinite() { m } else { m + (1.0_f32 + (-(av - bv).abs()).exp()).ln() }
+                if av.is_nan() || bv.is_nan() { f32::NAN } else if m.is_infinite() { m } else { m + (1.0_f32 + (-(av - bv).abs()).exp()).ln() }
             },
             BinaryOp::Logaddexp2 => {
                 let m = av.max(bv);
                 let ln2 = std::f32::consts::LN_2;
-                if m.is_infinite() { m } else { m + ((1.0_f32 + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
+                if av.is_nan() || bv.is_nan() { f32::NAN } else if m.is_infinite() { m } else { m + ((1.0_f32 + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
             },
             BinaryOp::Nextafter => {
                 // Use bit manipulation for nextafter
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 8e5da77..5c9675c 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -111,13 +111,13 @@ macro_rules! impl_float_dtype {
                     BinaryOp::Logaddexp => {
                         // log(exp(a) + exp(b)) = max(a,b) + log(1 + exp(-|a-b|))
                         let m = av.max(bv);
-                        if m.is_infinite() { m } else { m + (1.0 as $T + (-(av - bv).abs()).exp()).ln() }
+                        if av.is_nan() || bv.is_nan() { <$T>::NAN } else if m.is_infinite() { m } else { m + (1.0 as $T + (-(av - bv).abs()).exp()).ln() }
                     },
                     BinaryOp::Logaddexp2 => {
                         // log2(2^a + 2^b) = max(a,b) + log2(1 + 2^(-|a-b|))
                         let m = av.max(bv);
                         let ln2 = std::f64::consts::LN_2 as $T;
-                        if m.is_infinite() { m } else { m + ((1.0 as $T + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
+                        if av.is_nan() || bv.is_nan() { <$T>::NAN } else if m.is_infinite() { m } else { m + ((1.0 as $T + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
                     },
                     BinaryOp::Nextafter => {
                         // Use f64 nextafter for both f32 and f64
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index ce685d1..4026b46 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -191,14 +191,14 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
                 let max = a.max(b);
-                if max.is_infinite() { max } else { max + ((-((a - b).abs())).exp()).ln_1p() }
+                if a.is_nan() || b.is_nan() { <$T>::NAN } else if max.is_infinite() { max } else { max + ((-((a - b).abs())).exp()).ln_1p() }
             }
         }
         impl BinaryKernel<$T> for Logaddexp2 {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
                 let max = a.max(b);
-                if max.is_infinite() { max } else { max + (2.0 as $T).powf(-(a - b).abs()).ln_1p() / (2.0 as $T).ln() }
+                if a.is_nan() || b.is_nan() { <$T>::NAN } else if max.is_infinite() { max } else { max + (2.0 as $T).powf(-(a - b).abs()).ln_1p() / (2.0 as $T).ln() }
             }
         }
         impl BinaryKernel<$T> for Nextafter {
@@ -374,7 +374,7 @@ impl BinaryKernel<f16> for Logaddexp {
         let af = a.to_f32();
         let bf = b.to_f32();
         let max = af.max(bf);
-        if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + ((-((af - bf).abs())).exp()).ln_1p()) }
+        if af.is_nan() || bf.is_nan() { f16::NAN } else if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + ((-((af - bf).abs())).exp()).ln_1p()) }
     }
 }
 impl BinaryKernel<f16> for Logaddexp2 {
@@ -383,7 +383,7 @@ impl BinaryKernel<f16> for Logaddexp2 {
         let af = a.to_f32();
         let bf = b.to_f32();
         let max = af.max(bf);
-        if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + 2.0f32.powf(-(af - bf).abs()).ln_1p() / 2.0f32.ln()) }
+        if af.is_nan() || bf.is_nan() { f16::NAN } else if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + 2.0f32.powf(-(af - bf).abs()).ln_1p() / 2.0f32.ln()) }
     }
 }
 impl BinaryKernel<f16> for Nextafter {
-- 
2.43.0


From 85842f996daec5ca26aacff2eb28b007bcbd83eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:17 +0000
Subject: [PATCH 17/70] fix: nextafter steps towards its target for negative
 numbers and zero

---
 src/array/dtype/float16.rs    | 15 +--------------
 src/array/dtype/macros.rs     | 19 +------------------
 src/ops/kernels/arithmetic.rs |  6 ++++--
 3 files changed, 6 insertions(+), 34 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 8364485..2ee6a7c 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -115,20 +115,7 @@ impl DTypeOps for Float16Ops {
                 let ln2 = std::f32::consts::LN_2;
                 if av.is_nan() || bv.is_nan() { f32::NAN } else if m.is_infinite() { m } else { m + ((1.0_f32 + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
             },
-            BinaryOp::Nextafter => {
-                // Use bit manipulation for nextafter
-                if av.is_nan() || bv.is_nan() {
-                    f32::NAN
-                } else if av == bv {
-                    bv
-                } else if av < bv {
-                    let bits = av.to_bits();
-                    f32::from_bits(if av >= 0.0 { bits + 1 } else { bits - 1 })
-                } else {
-                    let bits = av.to_bits();
-                    f32::from_bits(if av > 0.0 { bits - 1 } else { bits + 1 })
-                }
-            },
+            BinaryOp::Nextafter => <crate::ops::kernels::arithmetic::Nextafter as crate::ops::kernels::BinaryKernel<f16>>::apply(Self::read(a, a_offset), Self::read(b, b_offset)).to_f32(),
         };
         Self::write(out, idx, f16::from_f32(result));
     }
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 5c9675c..a3b148d 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -119,24 +119,7 @@ macro_rules! impl_float_dtype {
                         let ln2 = std::f64::consts::LN_2 as $T;
                         if av.is_nan() || bv.is_nan() { <$T>::NAN } else if m.is_infinite() { m } else { m + ((1.0 as $T + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
                     },
-                    BinaryOp::Nextafter => {
-                        // Use f64 nextafter for both f32 and f64
-                        let av64 = av as f64;
-                        let bv64 = bv as f64;
-                        if av64.is_nan() || bv64.is_nan() {
-                            <$T>::NAN
-                        } else if av64 == bv64 {
-                            bv
-                        } else if av64 < bv64 {
-                            // Move toward positive
-                            let bits = av.to_bits();
-                            <$T>::from_bits(if av >= 0.0 as $T { bits + 1 } else { bits - 1 })
-                        } else {
-                            // Move toward negative
-                            let bits = av.to_bits();
-                            <$T>::from_bits(if av > 0.0 as $T { bits - 1 } else { bits + 1 })
-                        }
-                    },
+                    BinaryOp::Nextafter => <crate::ops::kernels::arithmetic::Nextafter as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                 };
                 Self::write(out, idx, result);
             }
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 4026b46..7d53d99 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -206,7 +206,8 @@ macro_rules! impl_float_arithmetic {
             fn apply(a: $T, b: $T) -> $T {
                 if a == b { b }
                 else if a.is_nan() || b.is_nan() { <$T>::NAN }
-                else if a < b { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
+                else if a == 0.0 { <$T>::from_bits(1).copysign(b) }
+                else if (a < b) == (a > 0.0) { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
                 else { <$T>::from_bits(a.to_bits().wrapping_sub(1)) }
             }
         }
@@ -391,7 +392,8 @@ impl BinaryKernel<f16> for Nextafter {
     fn apply(a: f16, b: f16) -> f16 {
         if a == b { b }
         else if a.is_nan() || b.is_nan() { f16::NAN }
-        else if a < b { f16::from_bits(a.to_bits().wrapping_add(1)) }
+        else if a == f16::ZERO { f16::from_bits(1).copysign(b) }
+        else if (a < b) == (a > f16::ZERO) { f16::from_bits(a.to_bits().wrapping_add(1)) }
         else { f16::from_bits(a.to_bits().wrapping_sub(1)) }
     }
 }
-- 
2.43.0


From ffd79663823e902b9fc2ff1c835bde02e7ba7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:43 +0000
Subject: [PATCH 18/70] fix: shifting an integer by its width or more gives
 what NumPy gives

---
 src/array/dtype/macros.rs  | 8 ++++----
 src/ops/kernels/bitwise.rs | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index a3b148d..09a7aae 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -384,8 +384,8 @@ macro_rules! impl_signed_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => <crate::ops::kernels::bitwise::LeftShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BitwiseOp::RightShift => <crate::ops::kernels::bitwise::RightShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                 };
                 Self::write(out, idx, result);
                 true
@@ -586,8 +586,8 @@ macro_rules! impl_unsigned_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => <crate::ops::kernels::bitwise::LeftShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BitwiseOp::RightShift => <crate::ops::kernels::bitwise::RightShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                 };
                 Self::write(out, idx, result);
                 true
diff --git a/src/ops/kernels/bitwise.rs b/src/ops/kernels/bitwise.rs
index f954ad8..47e6433 100644
--- a/src/ops/kernels/bitwise.rs
+++ b/src/ops/kernels/bitwise.rs
@@ -62,14 +62,17 @@ macro_rules! impl_bitwise_int {
         impl BinaryKernel<$T> for LeftShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shl(b as u32)
+                // Shifting every bit out gives 0, like NumPy
+                if (b as u64) < <$T>::BITS as u64 { a << b } else { 0 }
             }
         }
 
         impl BinaryKernel<$T> for RightShift {
             #[inline(always)]
+            #[allow(unused_comparisons)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shr(b as u32)
+                // Shifting every bit out leaves the sign, like NumPy
+                if (b as u64) < <$T>::BITS as u64 { a >> b } else if a < 0 { !0 } else { 0 }
             }
         }
 
-- 
2.43.0


From fcca74b84207b1b66fed2d8a4ffbc2d92a34e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:02 +0000
Subject: [PATCH 19/70] fix: negating or taking abs of the smallest integer
 wraps instead of panicking

---
 src/array/dtype/macros.rs | 6 +++---
 src/ops/kernels/math.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 09a7aae..3789f75 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -242,8 +242,8 @@ macro_rules! impl_signed_int_dtype {
             unsafe fn unary_op(&self, op: UnaryOp, src: *const u8, byte_offset: isize, out: *mut u8, idx: usize) {
                 let v = Self::read(src, byte_offset);
                 let result = match op {
-                    UnaryOp::Neg => -v,
-                    UnaryOp::Abs => v.abs(),
+                    UnaryOp::Neg => v.wrapping_neg(),
+                    UnaryOp::Abs => v.wrapping_abs(),
                     UnaryOp::Sqrt => (v as f64).sqrt() as $T,
                     UnaryOp::Exp => (v as f64).exp() as $T,
                     UnaryOp::Log => (v as f64).ln() as $T,
@@ -302,7 +302,7 @@ macro_rules! impl_signed_int_dtype {
                     // Float-only ops: convert to float, compute, convert back
                     BinaryOp::Arctan2 => (av as f64).atan2(bv as f64) as $T,
                     BinaryOp::Hypot => (av as f64).hypot(bv as f64) as $T,
-                    BinaryOp::Copysign => if bv >= 0 { av.abs() } else { -av.abs() },
+                    BinaryOp::Copysign => if bv >= 0 { av.wrapping_abs() } else { av.wrapping_abs().wrapping_neg() },
                     BinaryOp::Logaddexp => ((av as f64).exp() + (bv as f64).exp()).ln() as $T,
                     BinaryOp::Logaddexp2 => ((av as f64).exp2() + (bv as f64).exp2()).log2() as $T,
                     BinaryOp::Nextafter => if av < bv { av.wrapping_add(1) } else if av > bv { av.wrapping_sub(1) } else { bv },
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 210c71c..70f6c9b 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -396,7 +396,7 @@ macro_rules! impl_signed_int_math {
         }
         impl UnaryKernel<$T> for Abs {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.abs() }
+            fn apply(v: $T) -> $T { v.wrapping_abs() }
         }
         impl UnaryKernel<$T> for Square {
             #[inline(always)]
-- 
2.43.0


From 0ae5d7e7bbe3929c34edcf20a87e37e50cb859c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:24 +0000
Subject: [PATCH 20/70] fix: rint rounds halves to even

---
 src/array/dtype/float16.rs | 2 +-
 src/array/dtype/macros.rs  | 2 +-
 src/ops/kernels/math.rs    | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 2ee6a7c..4095773 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -74,7 +74,7 @@ impl DTypeOps for Float16Ops {
             UnaryOp::Log1p => v.ln_1p(),
             UnaryOp::Cbrt => v.cbrt(),
             UnaryOp::Trunc => v.trunc(),
-            UnaryOp::Rint => v.round(),
+            UnaryOp::Rint => v.round_ties_even(),
             UnaryOp::Arcsinh => v.asinh(),
             UnaryOp::Arccosh => v.acosh(),
             UnaryOp::Arctanh => v.atanh(),
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 3789f75..d9b40cc 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -76,7 +76,7 @@ macro_rules! impl_float_dtype {
                     UnaryOp::Log1p => v.ln_1p(),
                     UnaryOp::Cbrt => v.cbrt(),
                     UnaryOp::Trunc => v.trunc(),
-                    UnaryOp::Rint => v.round(),
+                    UnaryOp::Rint => v.round_ties_even(),
                     UnaryOp::Arcsinh => v.asinh(),
                     UnaryOp::Arccosh => v.acosh(),
                     UnaryOp::Arctanh => v.atanh(),
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 70f6c9b..cfe82f9 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -230,7 +230,7 @@ macro_rules! impl_float_math {
         }
         impl UnaryKernel<$T> for Rint {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.round() }
+            fn apply(v: $T) -> $T { v.round_ties_even() }
         }
         impl UnaryKernel<$T> for Arcsinh {
             #[inline(always)]
@@ -369,7 +369,7 @@ impl UnaryKernel<f16> for Trunc {
 }
 impl UnaryKernel<f16> for Rint {
     #[inline(always)]
-    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round()) }
+    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round_ties_even()) }
 }
 impl UnaryKernel<f16> for Arcsinh {
     #[inline(always)]
@@ -649,7 +649,7 @@ macro_rules! impl_complex_math {
         impl UnaryKernel<Complex<$F>> for Rint {
             #[inline(always)]
             fn apply(v: Complex<$F>) -> Complex<$F> {
-                Complex::new(v.re.round(), v.im.round())
+                Complex::new(v.re.round_ties_even(), v.im.round_ties_even())
             }
         }
         impl UnaryKernel<Complex<$F>> for Arcsinh {
-- 
2.43.0


From 97a216ea464f372285cbe4e94d5426ce3112d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:41 +0000
Subject: [PATCH 21/70] fix: integer power uses all of a 64-bit exponent

---
 src/array/dtype/integers.rs |  2 +-
 src/array/dtype/macros.rs   | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/array/dtype/integers.rs b/src/array/dtype/integers.rs
index a2334b2..ec72458 100644
--- a/src/array/dtype/integers.rs
+++ b/src/array/dtype/integers.rs
@@ -1,6 +1,6 @@
 //! Integer dtype implementations (signed and unsigned).
 
-use super::macros::{impl_signed_int_dtype, impl_unsigned_int_dtype};
+use super::macros::{impl_signed_int_dtype, impl_unsigned_int_dtype, wrapping_pow_u64};
 use super::{BinaryOp, BitwiseOp, DTypeKind, DTypeOps, ReduceOp, UnaryOp};
 
 // Signed integers
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index d9b40cc..0848e5c 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -197,6 +197,14 @@ macro_rules! impl_float_dtype {
     };
 }
 
+/// `wrapping_pow` with a 64-bit exponent: a^e = a^(e mod 2^32) * (a^(2^32))^(e div 2^32).
+macro_rules! wrapping_pow_u64 {
+    ($a:expr, $e:expr) => {{
+        let root = $a.wrapping_pow(1 << 31);
+        $a.wrapping_pow($e as u32).wrapping_mul(root.wrapping_mul(root).wrapping_pow(($e >> 32) as u32))
+    }};
+}
+
 /// Implement DTypeOps for a signed integer type.
 macro_rules! impl_signed_int_dtype {
     ($struct_name:ident, $T:ty, $size:expr, $kind:ident, $name:expr, $typestr:expr, $format:expr, $priority:expr) => {
@@ -294,7 +302,7 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
                     BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
-                    BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
+                    BinaryOp::Pow => if bv >= 0 { wrapping_pow_u64!(av, bv as u64) } else { 0 },
                     BinaryOp::Mod => if bv != 0 { av.wrapping_rem(bv) } else { 0 },
                     BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
@@ -496,7 +504,7 @@ macro_rules! impl_unsigned_int_dtype {
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
                     BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
-                    BinaryOp::Pow => av.wrapping_pow(bv as u32),
+                    BinaryOp::Pow => wrapping_pow_u64!(av, bv as u64),
                     BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
                     BinaryOp::FloorDiv => if bv != 0 { av / bv } else { 0 },
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
@@ -604,3 +612,4 @@ macro_rules! impl_unsigned_int_dtype {
 pub(super) use impl_float_dtype;
 pub(super) use impl_signed_int_dtype;
 pub(super) use impl_unsigned_int_dtype;
+pub(super) use wrapping_pow_u64;
-- 
2.43.0


From 6446abf889a8824a9ce47dad64b671a255a3d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:17 +0000
Subject: [PATCH 22/70] fix: isnan, isinf, isfinite and signbit of booleans

---
 src/array/dtype/bool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array/dtype/bool.rs b/src/array/dtype/bool.rs
index 9e1f871..be8cb82 100644
--- a/src/array/dtype/bool.rs
+++ b/src/array/dtype/bool.rs
@@ -43,6 +43,10 @@ impl DTypeOps for BoolOps {
         let result = match op {
             UnaryOp::Neg => !v,  // logical not for bool
             UnaryOp::Abs => v,
+            // Booleans are finite, real and never negative
+            UnaryOp::Isfinite | UnaryOp::Isreal => true,
+            UnaryOp::Isnan | UnaryOp::Isinf | UnaryOp::Isneginf | UnaryOp::Isposinf
+            | UnaryOp::Signbit | UnaryOp::Iscomplex => false,
             _ => v,  // transcendental ops make no sense for bool
         };
         Self::write(out, idx, result);
-- 
2.43.0


From 8ad641fb3a4d64b8705d312dbe0720ad9b6b53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:02 +0000
Subject: [PATCH 23/70] fix: argmax/argmin along an axis of a strided array
 dereferenced an element as an address

---
 src/ops/array_methods/reductions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 3efff6c..9ec241f 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -601,8 +601,7 @@ macro_rules! impl_arg_axis {
                     let mut best_val = unsafe { *start };
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
-                        let v = unsafe { *(start as *const u8).offset(axis_stride * j as isize) as *const T };
-                        let v = unsafe { *v };
+                        let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
                         if v $cmp best_val {
                             best_val = v;
                             best_idx = j as i64;
-- 
2.43.0


From 98a73e8c2ed4ef5a0f88e430b14f5995a10663fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:18 +0000
Subject: [PATCH 24/70] fix: where tested the first byte of each condition
 element

---
 src/ops/dispatch.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed0ef0..172d48d 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1682,6 +1682,9 @@ fn dispatch_where_typed<T: Copy>(
 
     let itemsize = std::mem::size_of::<T>() as isize;
 
+    let cond_dtype = cond_bc.dtype();
+    let cond_ops = cond_dtype.ops();
+
     // Check for contiguous fast path: all arrays contiguous and same itemsize
     let all_contiguous = cond_bc.is_c_contiguous() && x_bc.is_c_contiguous() && y_bc.is_c_contiguous();
 
@@ -1692,16 +1695,7 @@ fn dispatch_where_typed<T: Copy>(
         let cond_itemsize = cond_bc.dtype().itemsize();
 
         for i in 0..size {
-            let cond_val = unsafe {
-                match cond_itemsize {
-                    1 => *cond_ptr.add(i) != 0,
-                    _ => {
-                        // For other dtypes, check if any byte is non-zero
-                        let ptr = cond_ptr.add(i * cond_itemsize);
-                        (0..cond_itemsize).any(|j| *ptr.add(j) != 0)
-                    }
-                }
-            };
+            let cond_val = unsafe { cond_ops.is_truthy(cond_ptr, (i * cond_itemsize) as isize) };
             let val = if cond_val {
                 unsafe { *x_ptr.add(i) }
             } else {
@@ -1716,7 +1710,7 @@ fn dispatch_where_typed<T: Copy>(
             .zip(y_bc.iter_offsets())
             .enumerate()
         {
-            let cond_val = unsafe { *cond_bc.data_ptr().byte_offset(cond_off) != 0 };
+            let cond_val = unsafe { cond_ops.is_truthy(cond_bc.data_ptr(), cond_off) };
             let val = if cond_val {
                 unsafe { *(x_bc.data_ptr() as *const T).byte_offset(x_off) }
             } else {
-- 
2.43.0


From cab90dbe2d77b90294c41e375effe207104c376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:33 +0000
Subject: [PATCH 25/70] fix: diag wrote float64 elements into results of other
 dtypes

---
 src/ops/linalg.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 75342a4..b455399 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -393,11 +393,10 @@ pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
             // Create diagonal matrix from 1D array
             let n = a.shape()[0];
             let result = RumpyArray::zeros(vec![n, n], a.dtype());
+            let dtype = a.dtype();
             for i in 0..n {
-                let val = a.get_element(&[i]);
                 unsafe {
-                    let ptr = result.data_ptr().add((i * n + i) * 8) as *mut f64;
-                    *ptr = val;
+                    dtype.ops().copy_element(a.data_ptr(), a.byte_offset_for(&[i]), result.data_ptr() as *mut u8, i * n + i);
                 }
             }
             Some(result)
@@ -406,11 +405,10 @@ pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
             // Extract diagonal from 2D matrix
             let n = a.shape()[0].min(a.shape()[1]);
             let result = RumpyArray::zeros(vec![n], a.dtype());
+            let dtype = a.dtype();
             for i in 0..n {
-                let val = a.get_element(&[i, i]);
                 unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = val;
+                    dtype.ops().copy_element(a.data_ptr(), a.byte_offset_for(&[i, i]), result.data_ptr() as *mut u8, i);
                 }
             }
             Some(result)
-- 
2.43.0


From 8cb9d1fe903d669e1cc73bbb94cd6aa7618d2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 26/70] fix: linalg.solve wrote float64 elements into results
 of other dtypes

---
 src/ops/solve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index f128578..d3e4622 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -2,7 +2,7 @@
 //!
 //! Solves Ax = b for x using LU decomposition with partial pivoting.
 
-use crate::array::RumpyArray;
+use crate::array::{DType, RumpyArray};
 use faer::prelude::SpSolver;
 
 /// Solve linear system Ax = b.
@@ -52,7 +52,7 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     let fx = plu.solve(&fb);
 
     // Copy result to output
-    let result = RumpyArray::zeros(vec![n, m], a.dtype());
+    let result = RumpyArray::zeros(vec![n, m], DType::float64());
     let result_ptr = result.data_ptr() as *mut u8;
     let r_stride_0 = result.strides()[0];
     let r_stride_1 = result.strides()[1];
-- 
2.43.0


From 6b4b4559dcd5619fca383418e90efe5097de323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 27/70] fix: unpackbits accepted arrays that are not uint8

---
 src/python/indexing.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index b00b67e..5b972e7 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -717,7 +717,13 @@ pub fn unpackbits(
     axis: Option<isize>,
     count: Option<usize>,
     bitorder: &str,
-) -> PyRumpyArray {
+) -> PyResult<PyRumpyArray> {
+    if a.inner.dtype().kind() != crate::array::dtype::DTypeKind::Uint8 {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
+            "Expected an input array of unsigned byte data type",
+        ));
+    }
+
     let resolved_axis = axis.map(|ax| {
         if ax < 0 {
             (a.inner.ndim() as isize + ax) as usize
@@ -726,7 +732,7 @@ pub fn unpackbits(
         }
     });
 
-    PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder)))
 }
 
 // ============================================================================
-- 
2.43.0


From a4c15605cc40441d83c1f7abb8989f7fb02a3a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:26 +0000
Subject: [PATCH 28/70] fix: extract, place and putmask read masks of any dtype
 as bool

---
 src/python/misc.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 18ec667..1e4ebc3 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -347,7 +347,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
 /// Return elements of an array that satisfy a condition.
 #[pyfunction]
 pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
-    let cond = &condition.inner;
+    let cond = &condition.inner.astype(DType::bool());
     let inner = &arr.inner;
 
     // Both must have same total size when flattened
@@ -499,7 +499,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
 #[pyfunction]
 pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> PyResult<()> {
     let inner = &arr.inner;
-    let mask_arr = &mask.inner;
+    let mask_arr = &mask.inner.astype(DType::bool());
     let vals_arr = &vals.inner;
 
     if mask_arr.size() != inner.size() {
@@ -616,7 +616,7 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
 #[pyfunction]
 pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) -> PyResult<()> {
     let inner = &a.inner;
-    let mask_arr = &mask.inner;
+    let mask_arr = &mask.inner.astype(DType::bool());
     let vals_arr = &values.inner;
 
     if mask_arr.size() != inner.size() {
-- 
2.43.0


From d9f6c65a8b85cb44e34960af862d0c898b507901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:46 +0000
Subject: [PATCH 29/70] fix: select read conditions as bool and choices as the
 first choice's dtype

---
 src/python/misc.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 1e4ebc3..ed4639a 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -744,26 +744,40 @@ pub fn select(
 
     let shape = condlist[0].inner.shape().to_vec();
     let size = condlist[0].inner.size();
-    let out_dtype = choicelist[0].inner.dtype();
-
-    let mut result = RumpyArray::full(shape, default, out_dtype.clone());
+    let out_dtype = choicelist.iter().skip(1).fold(choicelist[0].inner.dtype(), |acc, c| {
+        crate::array::promote_dtype(&acc, &c.inner.dtype())
+    });
+
+    let prepare = |arr: &RumpyArray, dtype: DType| -> PyResult<RumpyArray> {
+        arr.astype(dtype).broadcast_to(&shape).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err("conditions and choices must have the same shape")
+        })
+    };
+    let conds: Vec<RumpyArray> = condlist.iter()
+        .map(|c| prepare(&c.inner, DType::bool()))
+        .collect::<PyResult<_>>()?;
+    let choices: Vec<RumpyArray> = choicelist.iter()
+        .map(|c| prepare(&c.inner, out_dtype.clone()))
+        .collect::<PyResult<_>>()?;
+
+    let mut result = RumpyArray::full(shape.clone(), default, out_dtype.clone());
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
 
     // Collect offsets
-    let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+    let cond_offsets: Vec<Vec<isize>> = conds.iter()
+        .map(|c| c.iter_offsets().collect())
         .collect();
-    let choice_offsets: Vec<Vec<isize>> = choicelist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+    let choice_offsets: Vec<Vec<isize>> = choices.iter()
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
     // Collect raw pointers
-    let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+    let cond_ptrs: Vec<*const u8> = conds.iter()
+        .map(|c| c.data_ptr())
         .collect();
-    let choice_ptrs: Vec<*const u8> = choicelist.iter()
-        .map(|c| c.inner.data_ptr())
+    let choice_ptrs: Vec<*const u8> = choices.iter()
+        .map(|c| c.data_ptr())
         .collect();
 
     macro_rules! select_typed {
@@ -802,7 +816,7 @@ pub fn select(
                 for cond_idx in 0..condlist.len() {
                     let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
                     if cond_val != 0 {
-                        let choice = &choicelist[cond_idx].inner;
+                        let choice = &choices[cond_idx];
                         let choice_dtype = choice.dtype();
                         let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
                         unsafe { dst_ops.write_f64(dst_ptr, i, val); }
-- 
2.43.0


From 73febdea83a1859fb1987c3c544e3f1c977f913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 30/70] fix: piecewise read conditions of any dtype as bool

---
 src/python/misc.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index ed4639a..40b5c92 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -870,11 +870,16 @@ pub fn piecewise(
     let src_offsets: Vec<isize> = inner.iter_offsets().collect();
 
     // Collect condition pointers and offsets
-    let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+    let conds: Vec<RumpyArray> = condlist.iter()
+        .map(|c| c.inner.astype(DType::bool()).broadcast_to(inner.shape()).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err("conditions must have the shape of x")
+        }))
+        .collect::<PyResult<_>>()?;
+    let cond_ptrs: Vec<*const u8> = conds.iter()
+        .map(|c| c.data_ptr())
         .collect();
-    let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+    let cond_offsets: Vec<Vec<isize>> = conds.iter()
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
     let mut assigned = vec![false; size];
@@ -893,7 +898,7 @@ pub fn piecewise(
                 DTypeKind::Int16 => unsafe { *(dst_ptr as *mut i16).add($idx) = $val as i16; },
                 DTypeKind::Uint8 => unsafe { *(dst_ptr as *mut u8).add($idx) = $val as u8; },
                 DTypeKind::Uint16 => unsafe { *(dst_ptr as *mut u16).add($idx) = $val as u16; },
-                DTypeKind::Bool => unsafe { *(dst_ptr as *mut u8).add($idx) = $val as u8; },
+                DTypeKind::Bool => unsafe { *(dst_ptr as *mut u8).add($idx) = ($val != 0.0) as u8; },
                 _ => unsafe { dtype.ops().write_f64(dst_ptr, $idx, $val); }
             }
         }};
-- 
2.43.0


From 1eeaa280335c6f54d098b2dcfc686433a42bd292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 31/70] fix: ediff1d read to_begin and to_end as the array's
 dtype

---
 src/python/misc.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 40b5c92..50f256b 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -976,13 +976,16 @@ pub fn ediff1d(
     let dtype = inner.dtype();
 
     // Get begin/end array references or scalars
-    let begin_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_begin.and_then(|v| v.extract().ok());
-    let end_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_end.and_then(|v| v.extract().ok());
+    let as_array = |v: &Bound<'_, pyo3::PyAny>| {
+        v.extract::<pyo3::PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.astype(dtype.clone()))
+    };
+    let begin_arr: Option<RumpyArray> = to_begin.and_then(as_array);
+    let end_arr: Option<RumpyArray> = to_end.and_then(as_array);
     let begin_scalar: Option<f64> = if begin_arr.is_none() { to_begin.and_then(|v| v.extract().ok()) } else { None };
     let end_scalar: Option<f64> = if end_arr.is_none() { to_end.and_then(|v| v.extract().ok()) } else { None };
 
-    let begin_len = begin_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if begin_scalar.is_some() { 1 } else { 0 });
-    let end_len = end_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if end_scalar.is_some() { 1 } else { 0 });
+    let begin_len = begin_arr.as_ref().map(|a| a.size()).unwrap_or(if begin_scalar.is_some() { 1 } else { 0 });
+    let end_len = end_arr.as_ref().map(|a| a.size()).unwrap_or(if end_scalar.is_some() { 1 } else { 0 });
 
     let diff_len = if size > 0 { size - 1 } else { 0 };
     let out_len = begin_len + diff_len + end_len;
@@ -1002,9 +1005,9 @@ pub fn ediff1d(
 
             // Write begin values
             if let Some(ref arr) = begin_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
+                let offsets: Vec<isize> = arr.iter_offsets().collect();
                 for j in 0..begin_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
+                    unsafe { *dst.add(idx) = *(arr.data_ptr().offset(offsets[j]) as *const $ty); }
                     idx += 1;
                 }
             } else if let Some(scalar) = begin_scalar {
@@ -1033,9 +1036,9 @@ pub fn ediff1d(
 
             // Write end values
             if let Some(ref arr) = end_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
+                let offsets: Vec<isize> = arr.iter_offsets().collect();
                 for j in 0..end_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
+                    unsafe { *dst.add(idx) = *(arr.data_ptr().offset(offsets[j]) as *const $ty); }
                     idx += 1;
                 }
             } else if let Some(scalar) = end_scalar {
@@ -1062,11 +1065,11 @@ pub fn ediff1d(
 
             // Write begin values
             if let Some(ref arr) = begin_arr {
-                let arr_dtype = arr.inner.dtype();
+                let arr_dtype = arr.dtype();
                 let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
+                let offsets: Vec<isize> = arr.iter_offsets().collect();
                 for j in 0..begin_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
+                    let val = unsafe { arr_ops.read_f64(arr.data_ptr(), offsets[j]) }.unwrap_or(0.0);
                     unsafe { ops.write_f64(dst_ptr, idx, val); }
                     idx += 1;
                 }
@@ -1088,11 +1091,11 @@ pub fn ediff1d(
 
             // Write end values
             if let Some(ref arr) = end_arr {
-                let arr_dtype = arr.inner.dtype();
+                let arr_dtype = arr.dtype();
                 let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
+                let offsets: Vec<isize> = arr.iter_offsets().collect();
                 for j in 0..end_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
+                    let val = unsafe { arr_ops.read_f64(arr.data_ptr(), offsets[j]) }.unwrap_or(0.0);
                     unsafe { ops.write_f64(dst_ptr, idx, val); }
                     idx += 1;
                 }
-- 
2.43.0


From 583fb9e970633fe55a4b1996f51c5ebdf91e481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:36 +0000
Subject: [PATCH 32/70] fix: is_busday read arrays of any dtype as days

---
 src/python/datetime.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index c9bab52..c605a3a 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -226,6 +226,11 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
     // Handle rumpy array
     if let Ok(arr) = dates.extract::<PyRef<'_, PyRumpyArray>>() {
         let inner = &arr.inner;
+        if inner.dtype().kind() != DTypeKind::DateTime64(TimeUnit::Days) {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "dates must be a datetime64[D] array"
+            ));
+        }
         let mut result = RumpyArray::zeros(inner.shape().to_vec(), DType::bool());
         let src_ptr = inner.data_ptr() as *const i64;
         let dst_ptr = std::sync::Arc::get_mut(result.buffer_mut()).unwrap().as_mut_ptr() as *mut u8;
-- 
2.43.0


From 0ae83d563f6fd202ab25ae3ac2a2b1257db5911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:42 +0000
Subject: [PATCH 33/70] fix: sinc, i0, spacing, modf and frexp ignored the
 strides of their argument

---
 src/ops/special.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2075ff9..2640bb0 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -8,11 +8,21 @@ use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
 use std::sync::Arc;
 
+/// The array itself if it is C-contiguous, a C-contiguous copy otherwise.
+fn contiguous(arr: &RumpyArray) -> RumpyArray {
+    if arr.is_c_contiguous() {
+        arr.clone()
+    } else {
+        arr.copy()
+    }
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
 
 pub fn sinc(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
@@ -54,6 +64,7 @@ fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
 // ============================================================================
 
 pub fn i0(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => i0_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => i0_typed::<f64>(arr, DType::float64()),
@@ -107,6 +118,7 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => spacing_f32(arr),
         DTypeKind::Float64 => spacing_f64(arr),
@@ -174,6 +186,7 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
 // ============================================================================
 
 pub fn modf(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => modf_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => modf_typed::<f64>(arr, DType::float64()),
@@ -221,6 +234,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
 // ============================================================================
 
 pub fn frexp(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => frexp_f32(arr),
         DTypeKind::Float64 => frexp_f64(arr),
-- 
2.43.0


From 9352bc254dcddf4d32171ac9409b1eb4f38327a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:03 +0000
Subject: [PATCH 34/70] fix: ldexp, heaviside, gcd and lcm read the second
 operand as the first's dtype and shape

---
 src/ops/special.rs   | 41 ++++++++++++++++++++++++++---------------
 src/python/ufuncs.rs | 24 ++++++++++++++++--------
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2640bb0..ad636fa 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -5,7 +5,7 @@
 //! All functions operate natively in their input dtype (no f64 conversion).
 
 use crate::array::dtype::DTypeKind;
-use crate::array::{DType, RumpyArray};
+use crate::array::{broadcast_shapes, promote_dtype, DType, RumpyArray};
 use std::sync::Arc;
 
 /// The array itself if it is C-contiguous, a C-contiguous copy otherwise.
@@ -17,6 +17,12 @@ fn contiguous(arr: &RumpyArray) -> RumpyArray {
     }
 }
 
+/// Both operands, C-contiguous and of their common broadcast shape.
+fn broadcast_pair(a: &RumpyArray, b: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    Some((contiguous(&a.broadcast_to(&shape)?), contiguous(&b.broadcast_to(&shape)?)))
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
@@ -351,15 +357,16 @@ fn frexp_scalar_f32(x: f32) -> (f32, i32) {
 // Ldexp: x * 2^i
 // ============================================================================
 
-pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Option<RumpyArray> {
+    let (x, i) = &broadcast_pair(x, i)?;
+    Some(match x.dtype().kind() {
         DTypeKind::Float32 => ldexp_typed::<f32>(x, i, DType::float32()),
         DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
         _ => {
             let x_f64 = x.astype(DType::float64());
             ldexp_typed::<f64>(&x_f64, i, DType::float64())
         }
-    }
+    })
 }
 
 fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -403,8 +410,10 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 // Heaviside step function
 // ============================================================================
 
-pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> Option<RumpyArray> {
+    let dtype = promote_dtype(&x.dtype(), &h0.dtype());
+    let (x, h0) = &broadcast_pair(&x.astype(dtype.clone()), &h0.astype(dtype.clone()))?;
+    Some(match dtype.kind() {
         DTypeKind::Float32 => heaviside_typed::<f32>(x, h0, DType::float32()),
         DTypeKind::Float64 => heaviside_typed::<f64>(x, h0, DType::float64()),
         _ => {
@@ -412,7 +421,7 @@ pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
             let h0_f64 = h0.astype(DType::float64());
             heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64())
         }
-    }
+    })
 }
 
 fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -448,9 +457,10 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
 // GCD: Greatest common divisor
 // ============================================================================
 
-pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
-    let kind = a.dtype().kind();
-    match kind {
+pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let (a, b) = &broadcast_pair(&a.astype(dtype.clone()), &b.astype(dtype.clone()))?;
+    Some(match dtype.kind() {
         DTypeKind::Int64 => gcd_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => gcd_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => gcd_typed::<i16>(a, b, DType::int16()),
@@ -465,7 +475,7 @@ pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             gcd_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn gcd_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -538,9 +548,10 @@ fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
 // LCM: Least common multiple
 // ============================================================================
 
-pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
-    let kind = a.dtype().kind();
-    match kind {
+pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let (a, b) = &broadcast_pair(&a.astype(dtype.clone()), &b.astype(dtype.clone()))?;
+    Some(match dtype.kind() {
         DTypeKind::Int64 => lcm_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => lcm_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => lcm_typed::<i16>(a, b, DType::int16()),
@@ -554,7 +565,7 @@ pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             lcm_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn lcm_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5d4b323..63d0b13 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -782,26 +782,34 @@ pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
 
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
-pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::ldexp(&x.inner, &i.inner))
+pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::ldexp(&x.inner, &i.inner).map(PyRumpyArray::new).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together")
+    })
 }
 
 /// Compute the Heaviside step function.
 #[pyfunction]
-pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::heaviside(&x.inner, &h0.inner))
+pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::heaviside(&x.inner, &h0.inner).map(PyRumpyArray::new).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together")
+    })
 }
 
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
-pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::gcd(&x1.inner, &x2.inner))
+pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::gcd(&x1.inner, &x2.inner).map(PyRumpyArray::new).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together")
+    })
 }
 
 /// Compute the least common multiple element-wise.
 #[pyfunction]
-pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::lcm(&x1.inner, &x2.inner))
+pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::lcm(&x1.inner, &x2.inner).map(PyRumpyArray::new).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together")
+    })
 }
 
 // ============================================================================
-- 
2.43.0


From fa797ed3666aea0eaaeb5419f56641732de217a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 35/70] fix: place and putmask read values of any dtype as the
 array's

---
 src/python/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 50f256b..28db806 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -500,7 +500,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
 pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> PyResult<()> {
     let inner = &arr.inner;
     let mask_arr = &mask.inner.astype(DType::bool());
-    let vals_arr = &vals.inner;
+    let vals_arr = &vals.inner.astype(inner.dtype());
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -617,7 +617,7 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
 pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) -> PyResult<()> {
     let inner = &a.inner;
     let mask_arr = &mask.inner.astype(DType::bool());
-    let vals_arr = &values.inner;
+    let vals_arr = &values.inner.astype(inner.dtype());
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
-- 
2.43.0


From fe4cfe708a6be8967802556d702a11ba546b951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:42 +0000
Subject: [PATCH 36/70] fix: Generator.shuffle swapped elements of any dtype
 and layout as contiguous float64

---
 src/python/random.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 9032e35..402253a 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -261,24 +261,23 @@ impl PyGenerator {
 
         // Get mutable pointer to data
         // Safety: We have exclusive access via PyO3's borrow checking and the GIL
-        let ptr = arr.data_ptr() as *mut f64;
-        let size = arr.size();
-        let data = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-
-        // For 1D arrays, shuffle elements directly
-        if arr.ndim() == 1 {
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                data.swap(i, j);
-            }
-        } else {
-            // For ND arrays, shuffle along first axis by swapping rows
-            let row_size = arr.shape()[1..].iter().product::<usize>();
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                // Swap rows i and j
-                for k in 0..row_size {
-                    data.swap(i * row_size + k, j * row_size + k);
+        let ptr = arr.data_ptr() as *mut u8;
+        let itemsize = arr.itemsize();
+        let stride = arr.strides()[0];
+
+        // Byte offsets of the elements of one row (a single element for 1D arrays)
+        let row_offsets: Vec<isize> = arr.slice_axis(0, 0, 1, 1).iter_offsets().collect();
+        for i in (1..n).rev() {
+            let j = gen.bounded_uint64((i + 1) as u64) as usize;
+            if i == j {
+                continue;
+            }
+            // Swap rows i and j
+            for &k in &row_offsets {
+                unsafe {
+                    let a = ptr.offset(i as isize * stride + k);
+                    let b = ptr.offset(j as isize * stride + k);
+                    std::ptr::swap_nonoverlapping(a, b, itemsize);
                 }
             }
         }
-- 
2.43.0


From ad5caabbc3f723f6665ed47fc70c4c43cc19a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 37/70] fix: place and putmask left complex and float16 arrays
 unchanged

---
 src/python/misc.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 28db806..0434b2f 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -523,6 +523,7 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
         let mask_ptr = mask_arr.data_ptr() as *const u8;
         let arr_ptr = inner.data_ptr();
         let vals_ptr = vals_arr.data_ptr();
+        let mut done = true;
 
         macro_rules! place_typed {
             ($ty:ty) => {{
@@ -550,9 +551,11 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
             DTypeKind::Uint8 => place_typed!(u8),
             DTypeKind::Uint16 => place_typed!(u16),
             DTypeKind::Bool => place_typed!(u8),
-            _ => {} // Fall through to generic path
+            _ => done = false, // Fall through to generic path
+        }
+        if done {
+            return Ok(());
         }
-        return Ok(());
     }
 
     // Strided path with typed dispatch
@@ -589,15 +592,12 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
         DTypeKind::Uint16 => place_strided_typed!(u16),
         DTypeKind::Bool => place_strided_typed!(u8),
         _ => {
-            // Complex types fallback
+            // Other types fallback: both arrays have the same dtype
             let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
             let mut val_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[val_idx % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe { arr_ops.copy_element(vals_ptr, vals_offsets[val_idx % vals_size], (arr_ptr as *mut u8).offset(arr_offsets[i]), 0); }
                     val_idx += 1;
                 }
             }
@@ -640,6 +640,7 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
         let mask_ptr = mask_arr.data_ptr() as *const u8;
         let arr_ptr = inner.data_ptr();
         let vals_ptr = vals_arr.data_ptr();
+        let mut done = true;
 
         macro_rules! putmask_typed {
             ($ty:ty) => {{
@@ -665,9 +666,11 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
             DTypeKind::Uint8 => putmask_typed!(u8),
             DTypeKind::Uint16 => putmask_typed!(u16),
             DTypeKind::Bool => putmask_typed!(u8),
-            _ => {} // Fall through to generic path
+            _ => done = false, // Fall through to generic path
+        }
+        if done {
+            return Ok(());
         }
-        return Ok(());
     }
 
     // Strided path with typed dispatch
@@ -702,14 +705,11 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
         DTypeKind::Uint16 => putmask_strided_typed!(u16),
         DTypeKind::Bool => putmask_strided_typed!(u8),
         _ => {
-            // Complex types fallback
+            // Other types fallback: both arrays have the same dtype
             let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[i % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe { arr_ops.copy_element(vals_ptr, vals_offsets[i % vals_size], (arr_ptr as *mut u8).offset(arr_offsets[i]), 0); }
                 }
             }
         }
-- 
2.43.0


From 16f6d1a3cea6c5db883d3c3162ffa5ca3063e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:01 +0000
Subject: [PATCH 38/70] fix: slices of reversed views start at the element
 asked for

---
 src/array/views.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index abc7479..6234e72 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 impl RumpyArray {
     /// Create a view with new offset, shape, and strides, sharing the buffer.
-    pub fn view_with(&self, offset_delta: usize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
+    pub fn view_with(&self, offset_delta: isize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
         let mut flags = ArrayFlags::WRITEABLE;
         if is_c_contiguous(&shape, &strides, self.dtype.itemsize()) {
             flags |= ArrayFlags::C_CONTIGUOUS;
@@ -17,7 +17,7 @@ impl RumpyArray {
 
         Self {
             buffer: Arc::clone(&self.buffer),
-            offset: self.offset + offset_delta,
+            offset: (self.offset as isize + offset_delta) as usize,
             shape,
             strides,
             dtype: self.dtype.clone(),
@@ -70,7 +70,8 @@ impl RumpyArray {
 
         // Compute offset delta (bytes to skip to reach start element)
         let old_stride = self.strides[axis];
-        let offset_delta = (start as usize) * (old_stride.unsigned_abs());
+        // (an empty slice addresses no element, so it needs no offset)
+        let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
         // New stride = old_stride * step
         let mut new_strides = self.strides.clone();
@@ -232,15 +233,15 @@ impl RumpyArray {
     pub fn gufunc_subarray(&self, loop_indices: &[usize], loop_ndim: usize) -> Self {
         let my_loop_ndim = loop_ndim.min(self.ndim());
 
-        // Compute byte offset for this position in loop dims
+        // Compute byte offset for this position in loop dims, which broadcast
+        // right-aligned: our dims correspond to the last loop indices
+        let skip = loop_indices.len() - my_loop_ndim;
         let mut offset_delta: isize = 0;
-        for (i, &idx) in loop_indices.iter().enumerate() {
-            if i < my_loop_ndim {
-                // Handle broadcasting: if loop dim is 1, use index 0
-                let dim_size = self.shape[i];
-                let actual_idx = if dim_size == 1 { 0 } else { idx };
-                offset_delta += (actual_idx as isize) * self.strides[i];
-            }
+        for (i, &idx) in loop_indices[skip..].iter().enumerate() {
+            // Handle broadcasting: if loop dim is 1, use index 0
+            let dim_size = self.shape[i];
+            let actual_idx = if dim_size == 1 { 0 } else { idx };
+            offset_delta += (actual_idx as isize) * self.strides[i];
         }
 
         // Core shape and strides are the trailing dimensions
@@ -250,12 +251,12 @@ impl RumpyArray {
         // Handle case where we're extracting a scalar (empty core dims)
         if core_shape.is_empty() {
             return self.view_with(
-                offset_delta.max(0) as usize,
+                offset_delta,
                 vec![1],
                 vec![self.itemsize() as isize],
             );
         }
 
-        self.view_with(offset_delta.max(0) as usize, core_shape, core_strides)
+        self.view_with(offset_delta, core_shape, core_strides)
     }
 }
-- 
2.43.0


From 8d4b06c292377dca89ef348d2f75f766940fd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:26 +0000
Subject: [PATCH 39/70] fix: reshape of a column-major array reads its elements
 in row-major order

---
 src/array/views.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 6234e72..8b60e75 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -1,7 +1,7 @@
 //! View operations: reshape, transpose, flip, slice_axis, broadcast_to, squeeze, expand_dims.
 
 use super::flags::ArrayFlags;
-use super::{compute_c_strides, compute_f_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
+use super::{compute_c_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -95,12 +95,12 @@ impl RumpyArray {
             return None; // Would need copy
         }
 
-        let new_strides = if self.is_c_contiguous() {
-            compute_c_strides(&new_shape, self.dtype.itemsize())
-        } else {
-            compute_f_strides(&new_shape, self.dtype.itemsize())
-        };
+        if !self.is_c_contiguous() {
+            // Elements are laid out in column-major order: rearrange into row-major
+            return self.copy().reshape(new_shape);
+        }
 
+        let new_strides = compute_c_strides(&new_shape, self.dtype.itemsize());
         Some(self.view_with(0, new_shape, new_strides))
     }
 
-- 
2.43.0


From 74ae0c1e4f787ccb62c1a9901b1cf312fb15a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:09 +0000
Subject: [PATCH 40/70] fix: an integer index outside its axis raises
 IndexError instead of reading other memory

---
 src/python/pyarray/dunder_item.rs | 18 +++++++++---------
 src/python/pyarray/mod.rs         | 24 +++++++++++++++++-------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d374e11..0b7d372 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
+    expand_ellipsis, extract_slice_indices, fill_view, first_axis_len, normalize_index, normalize_slice,
     IndexItem, PyRumpyArray,
 };
 use crate::array::RumpyArray;
@@ -103,7 +103,7 @@ impl PyRumpyArray {
                             unreachable!()
                         }
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 let val = self.inner.get_element(&indices);
                 return Ok(val.into_pyobject(py)?.into_any().unbind());
             }
@@ -127,7 +127,7 @@ impl PyRumpyArray {
                                 "too many indices for array",
                             ));
                         }
-                        let idx = normalize_index(*idx, result.shape()[axis]);
+                        let idx = normalize_index(*idx, result.shape()[axis])?;
                         result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                         squeeze_axes.push(axis);
                         axis += 1;
@@ -156,7 +156,7 @@ impl PyRumpyArray {
 
         // Handle single integer index
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
             let result = result.squeeze_axis(0);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
@@ -164,7 +164,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, start, stop, step);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
@@ -194,7 +194,7 @@ impl PyRumpyArray {
                         let idx: isize = item.extract().unwrap();
                         normalize_index(idx, self.inner.shape()[axis])
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
 
                 if let Some(scalar) = value_scalar {
                     self.inner.set_element(&indices, scalar);
@@ -217,7 +217,7 @@ impl PyRumpyArray {
                     ));
                 }
                 if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis]);
+                    let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                     axis += 1;
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
@@ -236,7 +236,7 @@ impl PyRumpyArray {
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
 
             if self.inner.ndim() == 1 {
                 // Single element in 1D array
@@ -257,7 +257,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1cbc113..5461b5f 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -978,13 +978,23 @@ fn extract_slice_indices(
     Ok((indices.start, indices.stop, indices.step))
 }
 
-/// Normalize a negative index to positive.
-fn normalize_index(idx: isize, len: usize) -> usize {
-    if idx < 0 {
-        (len as isize + idx) as usize
-    } else {
-        idx as usize
-    }
+/// Normalize a negative index to positive. Indices outside the axis raise IndexError.
+fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
+    let normalized = if idx < 0 { idx + len as isize } else { idx };
+    if normalized < 0 || normalized >= len as isize {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}",
+            idx, len
+        )));
+    }
+    Ok(normalized as usize)
+}
+
+/// Length of the first axis; 0-d arrays have none to index.
+fn first_axis_len(arr: &RumpyArray) -> PyResult<usize> {
+    arr.shape().first().copied().ok_or_else(|| {
+        pyo3::exceptions::PyIndexError::new_err("too many indices for array: array is 0-dimensional")
+    })
 }
 
 /// Resolve a potentially negative axis to a positive index.
-- 
2.43.0


From c4ea3bf73b5bd825c9cca34a4c4014f7583ae3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 41/70] fix: tuple slices with a negative step clamp to the
 axis like Python's

---
 src/python/pyarray/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 5461b5f..c47b04b 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1058,8 +1058,9 @@ fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize
     let stop = if stop == isize::MAX { default_stop } else { stop };
 
     // Normalize negative indices
-    let start = if start < 0 { (start + len).max(0) } else { start.min(len) };
-    let stop = if stop < 0 { (stop + len).max(-1) } else { stop.min(len) };
+    let (lowest, highest) = if step > 0 { (0, len) } else { (-1, len - 1) };
+    let clamp = |i: isize| if i < 0 { (i + len).max(lowest) } else { i.min(highest) };
+    let (start, stop) = (clamp(start), clamp(stop));
 
     (start, stop)
 }
@@ -1128,6 +1129,9 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
             let step = slice.getattr("step").ok()
                 .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
                 .unwrap_or(1);
+            if step == 0 {
+                return Err(pyo3::exceptions::PyValueError::new_err("slice step cannot be zero"));
+            }
 
             // Use sentinel values that will be processed during application
             items.push(IndexItem::Slice(
-- 
2.43.0


From 30f5156fc225d2340c80928061fe3a3c3eb3f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:22 +0000
Subject: [PATCH 42/70] fix: integer and bool matmul accept arrays with
 negative strides

---
 src/ops/matmul.rs | 48 +++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index aa195ff..c7990ec 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -147,24 +147,24 @@ impl GufuncKernel for MatmulKernel {
 
 /// Bool matmul: C[i,j] = any(A[i,k] AND B[k,j] for all k)
 fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
-    let a_row_stride = a.strides()[0] as usize;
-    let a_col_stride = a.strides()[1] as usize;
-    let b_row_stride = b.strides()[0] as usize;
-    let b_col_stride = b.strides()[1] as usize;
-    let c_row_stride = c.strides()[0] as usize;
-    let c_col_stride = c.strides()[1] as usize;
+    let a_row_stride = a.strides()[0];
+    let a_col_stride = a.strides()[1];
+    let b_row_stride = b.strides()[0];
+    let b_col_stride = b.strides()[1];
+    let c_row_stride = c.strides()[0];
+    let c_col_stride = c.strides()[1];
 
     let a_ptr = a.data_ptr();
     let b_ptr = b.data_ptr();
     let c_ptr = c.data_ptr() as *mut u8;
 
-    for i in 0..m {
-        for j in 0..p {
+    for i in 0..m as isize {
+        for j in 0..p as isize {
             let mut result = false;
-            for k in 0..n {
+            for k in 0..n as isize {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride) != 0;
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride) != 0;
+                    let a_val = *a_ptr.offset(i * a_row_stride + k * a_col_stride) != 0;
+                    let b_val = *b_ptr.offset(k * b_row_stride + j * b_col_stride) != 0;
                     if a_val && b_val {
                         result = true;
                         break; // Short-circuit: any true is enough
@@ -172,7 +172,7 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = result as u8;
+                *c_ptr.offset(i * c_row_stride + j * c_col_stride) = result as u8;
             }
         }
     }
@@ -184,29 +184,29 @@ where
     T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
 {
     let elem_size = std::mem::size_of::<T>() as isize;
-    let a_row_stride = (a.strides()[0] / elem_size) as usize;
-    let a_col_stride = (a.strides()[1] / elem_size) as usize;
-    let b_row_stride = (b.strides()[0] / elem_size) as usize;
-    let b_col_stride = (b.strides()[1] / elem_size) as usize;
-    let c_row_stride = (c.strides()[0] / elem_size) as usize;
-    let c_col_stride = (c.strides()[1] / elem_size) as usize;
+    let a_row_stride = a.strides()[0] / elem_size;
+    let a_col_stride = a.strides()[1] / elem_size;
+    let b_row_stride = b.strides()[0] / elem_size;
+    let b_col_stride = b.strides()[1] / elem_size;
+    let c_row_stride = c.strides()[0] / elem_size;
+    let c_col_stride = c.strides()[1] / elem_size;
 
     let a_ptr = a.data_ptr() as *const T;
     let b_ptr = b.data_ptr() as *const T;
     let c_ptr = c.data_ptr() as *mut T;
 
-    for i in 0..m {
-        for j in 0..p {
+    for i in 0..m as isize {
+        for j in 0..p as isize {
             let mut sum = T::default();
-            for k in 0..n {
+            for k in 0..n as isize {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride);
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride);
+                    let a_val = *a_ptr.offset(i * a_row_stride + k * a_col_stride);
+                    let b_val = *b_ptr.offset(k * b_row_stride + j * b_col_stride);
                     sum = sum + a_val * b_val;
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = sum;
+                *c_ptr.offset(i * c_row_stride + j * c_col_stride) = sum;
             }
         }
     }
-- 
2.43.0


From d406865a22b00df6df064a2ed7ab9307f95b4d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:42 +0000
Subject: [PATCH 43/70] fix: matmul, inner and outer of mixed dtypes convert
 both operands to the result dtype

---
 src/ops/gufunc/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops/gufunc/mod.rs b/src/ops/gufunc/mod.rs
index 83721a8..486590b 100644
--- a/src/ops/gufunc/mod.rs
+++ b/src/ops/gufunc/mod.rs
@@ -49,6 +49,12 @@ pub fn gufunc_call<K: GufuncKernel>(
         .reduce(|a, b| promote_dtype(&a, &b))
         .unwrap_or_else(|| inputs[0].dtype());
 
+    // Kernels work on one dtype: convert the inputs that have another
+    let inputs: Vec<RumpyArray> = inputs
+        .iter()
+        .map(|a| if a.dtype() == output_dtype { (*a).clone() } else { a.astype(output_dtype.clone()) })
+        .collect();
+
     // Allocate outputs
     let outputs: Vec<RumpyArray> = (0..sig.num_outputs())
         .map(|i| {
-- 
2.43.0


From ccc5e530e12843852bfa4fdcf64ae0f4fc0ac948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:25 +0000
Subject: [PATCH 44/70] fix: matmul of small integer, unsigned and float16
 arrays returned zeros

---
 src/ops/matmul.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index c7990ec..867fd0f 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -3,6 +3,8 @@
 //! Implements batched matrix multiplication with signature "(m,n),(n,p)->(m,p)".
 //! Uses BLAS (Accelerate on macOS) when available, falls back to faer.
 
+use std::num::Wrapping;
+
 use crate::array::{DType, RumpyArray};
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
@@ -134,9 +136,23 @@ impl GufuncKernel for MatmulKernel {
         } else if dtype == DType::complex128() {
             matmul_faer_c64(a, b, c, m, n, p);
         } else if dtype == DType::int64() {
-            matmul_generic::<i64>(a, b, c, m, n, p);
+            matmul_generic::<Wrapping<i64>>(a, b, c, m, n, p);
         } else if dtype == DType::int32() {
-            matmul_generic::<i32>(a, b, c, m, n, p);
+            matmul_generic::<Wrapping<i32>>(a, b, c, m, n, p);
+        } else if dtype == DType::int16() {
+            matmul_generic::<Wrapping<i16>>(a, b, c, m, n, p);
+        } else if dtype == DType::int8() {
+            matmul_generic::<Wrapping<i8>>(a, b, c, m, n, p);
+        } else if dtype == DType::uint64() {
+            matmul_generic::<Wrapping<u64>>(a, b, c, m, n, p);
+        } else if dtype == DType::uint32() {
+            matmul_generic::<Wrapping<u32>>(a, b, c, m, n, p);
+        } else if dtype == DType::uint16() {
+            matmul_generic::<Wrapping<u16>>(a, b, c, m, n, p);
+        } else if dtype == DType::uint8() {
+            matmul_generic::<Wrapping<u8>>(a, b, c, m, n, p);
+        } else if dtype == DType::float16() {
+            matmul_generic::<half::f16>(a, b, c, m, n, p);
         } else if dtype == DType::bool() {
             matmul_bool(a, b, c, m, n, p);
         } else {
@@ -178,7 +194,7 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
     }
 }
 
-/// Generic matmul for integer types (no BLAS/faer support)
+/// Generic matmul for integer types and float16 (no BLAS/faer support)
 fn matmul_generic<T>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize)
 where
     T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
-- 
2.43.0


From 2fd57a9dc9af7e92746e013540424c9b4e383b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:47 +0000
Subject: [PATCH 45/70] fix: inner and outer write their result in the output
 dtype

---
 src/ops/inner.rs | 12 +++++++-----
 src/ops/outer.rs |  6 +++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 6950523..503bef7 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -33,15 +33,17 @@ impl GufuncKernel for InnerKernel {
         let n = a.shape()[0];
 
         // Inner product: sum_i a[i] * b[i]
-        let mut sum = 0.0;
+        let (mut re, mut im) = (0.0, 0.0);
         for i in 0..n {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
+            let (a_re, a_im) = a.get_complex_element(&[i]);
+            let (b_re, b_im) = b.get_complex_element(&[i]);
+            re += a_re * b_re - a_im * b_im;
+            im += a_re * b_im + a_im * b_re;
         }
 
-        // Write scalar result
-        let c_ptr = c.data_ptr() as *mut f64;
+        // Write scalar result in the output dtype
         unsafe {
-            *c_ptr = sum;
+            c.dtype().ops().write_complex(c.data_ptr() as *mut u8, 0, re, im);
         }
     }
 }
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 0c31abe..bc2ea47 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -39,13 +39,13 @@ impl GufuncKernel for OuterKernel {
 
         // Outer product: c[i,j] = a[i] * b[j]
         for i in 0..m {
-            let ai = a.get_element(&[i]);
+            let (a_re, a_im) = a.get_complex_element(&[i]);
             for j in 0..n {
-                let bj = b.get_element(&[j]);
+                let (b_re, b_im) = b.get_complex_element(&[j]);
                 let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
                 unsafe {
                     let dst = c_ptr.offset(byte_offset);
-                    *(dst as *mut f64) = ai * bj;
+                    c.dtype().ops().write_complex(dst, 0, a_re * b_re - a_im * b_im, a_re * b_im + a_im * b_re);
                 }
             }
         }
-- 
2.43.0


From 34582270a6447879e2c728462f2068755a4a9cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:53 +0000
Subject: [PATCH 46/70] fix: char.add, multiply and others read strided string
 arrays as contiguous

---
 src/ops/char.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index 3701b90..de195da 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -277,7 +277,7 @@ fn cp_is_cased(cp: u32) -> bool {
     cp_is_upper(cp) || cp_is_lower(cp)
 }
 
-/// Read a string from a string array at the given flat index.
+/// Read a string from a string array at the given flat index (in row-major order).
 ///
 /// # Safety
 /// The array must have a string dtype and the index must be valid.
@@ -287,10 +287,13 @@ unsafe fn read_string(arr: &RumpyArray, flat_idx: usize) -> String {
         _ => return String::new(),
     };
 
-    let itemsize = arr.dtype().itemsize();
-    let ptr = arr.data_ptr();
-    let byte_offset = (flat_idx * itemsize) as isize;
-    let start = ptr.offset(byte_offset) as *const u32;
+    let mut rest = flat_idx;
+    let mut byte_offset = 0isize;
+    for (&dim, &stride) in arr.shape().iter().zip(arr.strides()).rev() {
+        byte_offset += (rest % dim) as isize * stride;
+        rest /= dim;
+    }
+    let start = arr.data_ptr().offset(byte_offset) as *const u32;
 
     let mut chars = Vec::with_capacity(max_chars);
     for i in 0..max_chars {
-- 
2.43.0


From d825a7aea3fd461e3f997bef7ea1d38a32a73a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 47/70] fix: einsum with reordered output, several or repeated
 contracted indices gave wrong elements

---
 src/ops/einsum.rs | 97 +++++++++++++----------------------------------
 1 file changed, 27 insertions(+), 70 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f12e08..108dde2 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -362,11 +362,6 @@ fn einsum_single(
     let a_sub = &parsed.inputs[0];
     let out_sub = &parsed.output;
 
-    // Find which output index corresponds to which a index
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-
     // Find contraction index positions in a (may have multiple for repeated indices)
     let contract_in_a: Vec<(char, usize)> = contraction_indices.iter()
         .flat_map(|&c| {
@@ -384,12 +379,6 @@ fn einsum_single(
     let contract_size: usize = contract_dims.iter().product();
     let out_size: usize = out_shape.iter().product();
 
-    // Check for repeated indices (diagonal/trace)
-    let has_repeated_in_a = {
-        let mut seen: HashSet<char> = HashSet::new();
-        a_sub.iter().any(|c| !seen.insert(*c))
-    };
-
     let a_strides = a.strides();
     let a_ptr = a.data_ptr();
     let out_ptr = result.data_ptr();
@@ -438,11 +427,13 @@ fn einsum_single(
                     c_rem /= contract_dims[i];
                 }
 
-                // Build full a index
+                // Build full a index (a repeated index takes the same value at each position)
                 let mut a_idx = vec![0usize; a_sub.len()];
-                for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                    if let Some(a_pos) = maybe_a_pos {
-                        a_idx[a_pos] = out_idx[i];
+                for (i, c) in out_sub.iter().enumerate() {
+                    for (a_pos, ac) in a_sub.iter().enumerate() {
+                        if ac == c {
+                            a_idx[a_pos] = out_idx[i];
+                        }
                     }
                 }
                 // Map contraction index to contraction dimension and then to position
@@ -456,25 +447,6 @@ fn einsum_single(
                     }
                 }
 
-                // Handle repeated indices
-                if has_repeated_in_a {
-                    let mut idx_vals: HashMap<char, usize> = HashMap::new();
-                    let mut valid = true;
-                    for (pos, &c) in a_sub.iter().enumerate() {
-                        if let Some(&existing) = idx_vals.get(&c) {
-                            if a_idx[pos] != existing {
-                                valid = false;
-                                break;
-                            }
-                        } else {
-                            idx_vals.insert(c, a_idx[pos]);
-                        }
-                    }
-                    if !valid {
-                        continue;
-                    }
-                }
-
                 let a_offset = compute_offset(&a_idx, a_strides);
                 let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
                 sum += val;
@@ -576,7 +548,14 @@ fn try_blas_contraction(
 
     // Identify free indices for B (in B but not contracted)
     let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let b_contract: Vec<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+    let b_contract: Vec<char> = a_contract.clone();
+
+    // Only a plain matrix product: every contracted index is in both operands and no free one is
+    if contraction_indices.iter().any(|c| !a_sub.contains(c) || !b_sub.contains(c))
+        || a_free.iter().any(|c| b_free.contains(c))
+    {
+        return None;
+    }
 
     // Compute dimensions
     let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
@@ -648,7 +627,7 @@ fn try_blas_contraction(
         let out_perm: Vec<usize> = out_sub.iter()
             .map(|c| inter_indices.iter().position(|x| x == c))
             .collect::<Option<Vec<_>>>()?;
-        Some(reshaped.transpose_axes(&out_perm))
+        Some(reshaped.transpose_axes(&out_perm).copy())
     }
 }
 
@@ -673,19 +652,15 @@ fn einsum_binary_elementwise(
     let contract_size: usize = contract_dims.iter().product();
     let out_size: usize = out_shape.iter().product();
 
-    // Build index mappings
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let out_to_b: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-    let contract_in_a: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let contract_in_b: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
+    // Index of an operand: each of its subscripts is either an output or a contraction index
+    let operand_index = |sub: &[char], out_idx: &[usize], c_idx: &[usize]| -> Vec<usize> {
+        sub.iter()
+            .map(|c| match out_sub.iter().position(|oc| oc == c) {
+                Some(i) => out_idx[i],
+                None => contraction_indices.iter().position(|cc| cc == c).map_or(0, |i| c_idx[i]),
+            })
+            .collect()
+    };
 
     let a_strides = a.strides();
     let b_strides = b.strides();
@@ -722,27 +697,8 @@ fn einsum_binary_elementwise(
                 }
             }
 
-            // Build a index
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                if let Some(a_pos) = maybe_a_pos {
-                    a_idx[a_pos] = out_idx[i];
-                }
-            }
-            for (ci, &a_pos) in contract_in_a.iter().enumerate() {
-                a_idx[a_pos] = c_idx[ci];
-            }
-
-            // Build b index
-            let mut b_idx = vec![0usize; b_sub.len()];
-            for (i, &maybe_b_pos) in out_to_b.iter().enumerate() {
-                if let Some(b_pos) = maybe_b_pos {
-                    b_idx[b_pos] = out_idx[i];
-                }
-            }
-            for (ci, &b_pos) in contract_in_b.iter().enumerate() {
-                b_idx[b_pos] = c_idx[ci];
-            }
+            let a_idx = operand_index(a_sub, &out_idx, &c_idx);
+            let b_idx = operand_index(b_sub, &out_idx, &c_idx);
 
             let a_offset = compute_offset(&a_idx, a_strides);
             let b_offset = compute_offset(&b_idx, b_strides);
@@ -862,6 +818,7 @@ fn einsum_multi(
     }
 
     // Copy result to output array (dtype-aware)
+    let current = current.copy();
     let out_ptr = result.data_ptr() as *mut u8;
     let cur_ptr = current.data_ptr();
     let itemsize = result.dtype().itemsize();
-- 
2.43.0


From 9daddd868d141ffe2bb704f6e46aa6a38110c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 48/70] fix: reshape refused non-contiguous arrays, atleast_Nd
 and others returned them unchanged

---
 src/array/views.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 8b60e75..8753faa 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -83,20 +83,15 @@ impl RumpyArray {
         self.view_with(offset_delta, new_shape, new_strides)
     }
 
-    /// Reshape array. Returns a view if contiguous, otherwise would need copy.
-    /// For now, only works on contiguous arrays.
+    /// Reshape array. Returns a view if C-contiguous, otherwise a copy; None if the sizes differ.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
         let new_size: usize = new_shape.iter().product();
         if old_size != new_size {
             return None;
         }
-        if !self.is_c_contiguous() && !self.is_f_contiguous() {
-            return None; // Would need copy
-        }
-
         if !self.is_c_contiguous() {
-            // Elements are laid out in column-major order: rearrange into row-major
+            // Elements are not laid out in row-major order: rearrange them
             return self.copy().reshape(new_shape);
         }
 
-- 
2.43.0


From c00575fdd8b0e97de6c61f1af59310ec7d1c2774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 49/70] fix: moveaxis accepted out-of-range axes and misplaced
 several moved axes

---
 src/python/shape.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/python/shape.rs b/src/python/shape.rs
index 944d76c..79c1044 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -135,12 +135,21 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     let ndim = a.inner.ndim();
 
     // Normalize axes
-    let src: Vec<usize> = source.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
-    let dst: Vec<usize> = destination.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
+    let normalize = |axes: &[isize]| -> PyResult<Vec<usize>> {
+        axes.iter()
+            .map(|&x| {
+                let axis = if x < 0 { x + ndim as isize } else { x };
+                if axis < 0 || axis >= ndim as isize {
+                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                        "axis {} is out of bounds for array of dimension {}", x, ndim
+                    )));
+                }
+                Ok(axis as usize)
+            })
+            .collect()
+    };
+    let src = normalize(&source)?;
+    let dst = normalize(&destination)?;
 
     if src.len() != dst.len() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -152,8 +161,10 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     // Remove source axes and insert at destination positions
     let mut order: Vec<usize> = (0..ndim).filter(|x| !src.contains(x)).collect();
 
-    // Insert source axes at destination positions
-    for (&s, &d) in src.iter().zip(dst.iter()) {
+    // Insert source axes at destination positions, lowest destination first
+    let mut moves: Vec<(usize, usize)> = dst.iter().copied().zip(src.iter().copied()).collect();
+    moves.sort();
+    for (d, s) in moves {
         order.insert(d.min(order.len()), s);
     }
 
-- 
2.43.0


From fe83efb11c4f7b978abc3bcca897ecf404f2da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 50/70] fix: swapaxes of an axis with itself is a view, like
 any other

---
 src/ops/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5976f7e..125cfa1 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -186,7 +186,7 @@ impl RumpyArray {
         assert!(axis2 < ndim, "axis2 out of bounds");
 
         if axis1 == axis2 {
-            return self.copy();
+            return self.clone();
         }
 
         // Build permutation: swap axis1 and axis2
-- 
2.43.0


From 8a38036d98ff96e90f2d70ac404419d254c27b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:02 +0000
Subject: [PATCH 51/70] fix: squeeze of an array of unit dimensions kept one of
 them; matmul of vectors dropped unit dimensions that were the caller's

---
 src/array/views.rs |  5 -----
 src/ops/matmul.rs  | 18 +++++++++++++-----
 src/ops/solve.rs   |  2 +-
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 8753faa..7e781dd 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -172,11 +172,6 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        // Handle scalar case (all dims were 1)
-        if new_shape.is_empty() && self.size() == 1 {
-            return self.view_with(0, vec![1], vec![self.itemsize() as isize]);
-        }
-
         self.view_with(0, new_shape, new_strides)
     }
 
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index 867fd0f..4b5f135 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -379,12 +379,20 @@ pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 
     let result = results.pop()?;
 
-    // Squeeze result if we expanded inputs
-    if squeeze_result {
-        Some(result.squeeze())
-    } else {
-        Some(result)
+    if !squeeze_result {
+        return Some(result);
     }
+
+    // Drop exactly the axes that were added to the 1D inputs
+    let mut result = result;
+    if b.ndim() == 1 {
+        result = result.squeeze_axis(result.ndim() - 1);
+    }
+    if a.ndim() == 1 {
+        let axis = result.ndim() - if b.ndim() == 1 { 1 } else { 2 };
+        result = result.squeeze_axis(axis);
+    }
+    Some(result)
 }
 
 /// Expand 1D arrays for matmul and return whether to squeeze result.
diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index d3e4622..9cf3b06 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -69,7 +69,7 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 
     // Squeeze back to 1D if input was 1D
     if squeeze {
-        Some(result.squeeze())
+        Some(result.squeeze_axis(1))
     } else {
         Some(result)
     }
-- 
2.43.0


From dafdf49a4eefcfec2466957cc50c15143d74f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 52/70] fix: atleast_2d and atleast_3d of strided arrays are
 views, like those of contiguous ones

---
 src/python/shape.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/python/shape.rs b/src/python/shape.rs
index 79c1044..9e43d94 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -215,7 +215,7 @@ pub fn atleast_1d(a: &PyRumpyArray) -> PyRumpyArray {
 pub fn atleast_2d(a: &PyRumpyArray) -> PyRumpyArray {
     match a.inner.ndim() {
         0 => PyRumpyArray::new(a.inner.reshape(vec![1, 1]).unwrap_or_else(|| a.inner.clone())),
-        1 => PyRumpyArray::new(a.inner.reshape(vec![1, a.inner.size()]).unwrap_or_else(|| a.inner.clone())),
+        1 => PyRumpyArray::new(a.inner.expand_dims(0).unwrap_or_else(|| a.inner.clone())),
         _ => PyRumpyArray::new(a.inner.clone()),
     }
 }
@@ -225,14 +225,10 @@ pub fn atleast_2d(a: &PyRumpyArray) -> PyRumpyArray {
 pub fn atleast_3d(a: &PyRumpyArray) -> PyRumpyArray {
     match a.inner.ndim() {
         0 => PyRumpyArray::new(a.inner.reshape(vec![1, 1, 1]).unwrap_or_else(|| a.inner.clone())),
-        1 => {
-            let n = a.inner.size();
-            PyRumpyArray::new(a.inner.reshape(vec![1, n, 1]).unwrap_or_else(|| a.inner.clone()))
-        }
-        2 => {
-            let shape = a.inner.shape();
-            PyRumpyArray::new(a.inner.reshape(vec![shape[0], shape[1], 1]).unwrap_or_else(|| a.inner.clone()))
-        }
+        1 => PyRumpyArray::new(
+            a.inner.expand_dims(0).and_then(|r| r.expand_dims(2)).unwrap_or_else(|| a.inner.clone()),
+        ),
+        2 => PyRumpyArray::new(a.inner.expand_dims(2).unwrap_or_else(|| a.inner.clone())),
         _ => PyRumpyArray::new(a.inner.clone()),
     }
 }
-- 
2.43.0


From 3baeeb9d765ae3af1647211a6d50405fcb5e7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 53/70] fix: indexing one element of a multi-dimensional
 complex, string, datetime or 64-bit integer array lost its value

---
 src/python/pyarray/dunder_item.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 0b7d372..103c373 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -7,6 +7,7 @@ use super::{
     expand_ellipsis, extract_slice_indices, fill_view, first_axis_len, normalize_index, normalize_slice,
     IndexItem, PyRumpyArray,
 };
+use crate::array::dtype::DTypeKind;
 use crate::array::RumpyArray;
 
 #[pymethods]
@@ -90,7 +91,20 @@ impl PyRumpyArray {
             let items = expand_ellipsis(tuple, self.inner.ndim())?;
 
             // Fast path: all integers and matches ndim -> scalar access
-            if items.len() == self.inner.ndim()
+            // (elements that are exactly an f64; others stay 0-d arrays)
+            let fits_f64 = !matches!(
+                self.inner.dtype().kind(),
+                DTypeKind::Int64
+                    | DTypeKind::Uint64
+                    | DTypeKind::Complex64
+                    | DTypeKind::Complex128
+                    | DTypeKind::DateTime64(_)
+                    | DTypeKind::TimeDelta64(_)
+                    | DTypeKind::Str(_)
+                    | DTypeKind::Bytes(_)
+            );
+            if fits_f64
+                && items.len() == self.inner.ndim()
                 && items.iter().all(|i| matches!(i, IndexItem::Int(_)))
             {
                 let indices: Vec<usize> = items
-- 
2.43.0


From b8f3b763499ca89c9fd769b284881514ee4b1ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 54/70] fix: diagonal of arrays of more than two dimensions
 dropped the other axes

---
 src/ops/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 125cfa1..03e2a06 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -159,7 +159,7 @@ impl RumpyArray {
 
     // Math ufuncs are in array_methods/unary.rs
 
-    /// Extract diagonal from a 2D array. Returns a view.
+    /// Extract the diagonal over the first two axes. Returns a view.
     pub fn diagonal(&self) -> RumpyArray {
         assert!(self.ndim() >= 2, "diagonal requires at least 2D array");
         let shape = self.shape();
@@ -169,8 +169,12 @@ impl RumpyArray {
         // Diagonal stride = row_stride + col_stride (step diagonally)
         let diag_stride = strides[0] + strides[1];
 
-        // Return a 1D view with the diagonal stride
-        self.view_with(0, vec![n], vec![diag_stride])
+        // The remaining axes come first, the diagonal is the last axis of the view
+        let mut new_shape = shape[2..].to_vec();
+        let mut new_strides = strides[2..].to_vec();
+        new_shape.push(n);
+        new_strides.push(diag_stride);
+        self.view_with(0, new_shape, new_strides)
     }
 
     /// Return sum of diagonal elements (trace).
-- 
2.43.0


From 88546786c1031d1be305ccc57fc4bc89708afff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 55/70] fix: repeat, tile, roll, pad and extract lost complex
 values and rounded 64-bit integers

---
 src/array/manipulation.rs | 30 ++++++------------------------
 src/python/misc.rs        |  6 ++----
 src/python/pyarray/mod.rs |  7 +++----
 3 files changed, 11 insertions(+), 32 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1fce611..25b4f48 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -923,16 +923,13 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_idx = 0;
             for offset in arr.iter_offsets() {
-                let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                 for _ in 0..repeats {
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_idx, val); }
+                    unsafe { src_ops.copy_element(src_ptr, offset, dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -953,10 +950,8 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             // Iterate through source indices and write repeated values
             let src_shape = arr.shape();
@@ -966,7 +961,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let size = arr.size();
             for _ in 0..size {
                 let src_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_offset) }.unwrap_or(0.0);
 
                 // Write this value `repeats` times along the axis
                 dst_indices.copy_from_slice(&src_indices);
@@ -974,7 +968,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
                 for r in 0..repeats {
                     dst_indices[axis] = base_axis_idx + r;
                     let dst_offset = linear_index(&dst_indices, &new_shape);
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                    unsafe { src_ops.copy_element(src_ptr, src_offset, dst_ptr, dst_offset); }
                 }
 
                 increment_indices(&mut src_indices, src_shape);
@@ -1037,10 +1031,8 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
 
     let src_ptr = arr.data_ptr();
     let src_ops = src_dtype.ops();
-    let dst_dtype = result.dtype();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     // Iterate through destination indices
     let mut dst_indices = vec![0usize; max_ndim];
@@ -1061,11 +1053,10 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
             src_indices
         };
         let src_byte_offset = arr.byte_offset_for(&actual_src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         // Destination offset (result is C-contiguous, so use linear index)
         let dst_offset = linear_index(&dst_indices, &new_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         // Increment destination indices
         if i + 1 < dst_size {
@@ -1214,10 +1205,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let dst_size: usize = new_shape.iter().product();
@@ -1236,9 +1225,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
                     .collect();
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
                 let dst_offset = linear_index(&dst_indices, &new_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, &new_shape);
             }
@@ -1257,10 +1245,8 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
     let src_ptr = src.data_ptr();
     let src_dtype = src.dtype();
     let src_ops = src_dtype.ops();
-    let dst_dtype = dst.dtype();
     let buffer = Arc::get_mut(dst.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     let mut src_indices = vec![0usize; ndim];
     let src_size = src.size();
@@ -1273,10 +1259,9 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
             .collect();
 
         let src_byte_offset = src.byte_offset_for(&src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         let dst_offset = linear_index(&dst_indices, dst_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         increment_indices(&mut src_indices, src_shape);
     }
@@ -1354,10 +1339,8 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
             let mut result = RumpyArray::zeros(result_shape.clone(), src_dtype.clone());
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let size = arr.size();
@@ -1368,10 +1351,9 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
                 src_indices[axis] = (dst_indices[axis] + axis_len - shift) % axis_len;
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
                 let dst_offset = linear_index(&dst_indices, &result_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, arr.shape());
             }
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 0434b2f..964ca46 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -414,8 +414,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
                 let mut dst_idx = 0usize;
                 for i in 0..size {
                     if unsafe { *cond_ptr.add(i) } != 0 {
-                        let val = unsafe { ops.read_f64(src_ptr, (i * inner.itemsize()) as isize) }.unwrap_or(0.0);
-                        unsafe { ops.write_f64(dst_ptr, dst_idx, val); }
+                        unsafe { ops.copy_element(src_ptr, (i * inner.itemsize()) as isize, dst_ptr, dst_idx); }
                         dst_idx += 1;
                     }
                 }
@@ -479,8 +478,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
             let mut dst_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { ops.read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, dst_idx as usize, val); }
+                    unsafe { ops.copy_element(src_ptr, src_offsets[i], dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index c47b04b..75061bb 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -545,10 +545,9 @@ impl PyRumpyArray {
             let src_ptr = src.data_ptr();
             let itemsize = dtype.itemsize();
             for i in 0..shape[0] {
-                let val = unsafe { dtype.ops().read_f64(src_ptr, (i * itemsize) as isize) }.unwrap_or(0.0);
                 let base = i * repeats;
                 for j in 0..repeats {
-                    unsafe { dtype.ops().write_f64(result_ptr, base + j, val); }
+                    unsafe { dtype.ops().copy_element(src_ptr, (i * itemsize) as isize, result_ptr, base + j); }
                 }
             }
         } else {
@@ -557,8 +556,8 @@ impl PyRumpyArray {
             for i in 0..result.size() {
                 let mut src_indices = out_indices.clone();
                 src_indices[ax] /= repeats;
-                let val = src.get_element(&src_indices);
-                unsafe { dtype.ops().write_f64(result_ptr, i, val); }
+                let offset = src.byte_offset_for(&src_indices);
+                unsafe { dtype.ops().copy_element(src.data_ptr(), offset, result_ptr, i); }
                 crate::array::increment_indices(&mut out_indices, &new_shape);
             }
         }
-- 
2.43.0


From 36f210e409175c17d857fdf036deecf10d6403c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 56/70] fix: insert with negative positions or broadcast
 values, delete and insert out of bounds, repeat by zero along an axis

---
 src/array/manipulation.rs | 48 +++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 25b4f48..6d1656d 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -909,10 +909,6 @@ fn linear_index(indices: &[usize], shape: &[usize]) -> usize {
 /// Repeat elements of an array.
 /// If axis is None, flatten and repeat. Otherwise repeat along axis.
 pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<RumpyArray> {
-    if repeats == 0 {
-        return Some(RumpyArray::zeros(vec![0], arr.dtype()));
-    }
-
     match axis {
         None => {
             // Flatten and repeat each element
@@ -1103,8 +1099,11 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             // Flatten
             let flat = ravel_arr(arr);
             let size = flat.size();
-            let idx = if index < 0 { (size as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(size);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx > size as isize {
+                return None;
+            }
+            let idx = idx as usize;
 
             // Split at index, insert, concatenate
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1121,16 +1120,25 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             }
 
             let axis_len = arr.shape()[axis];
-            let idx = if index < 0 { (axis_len as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(axis_len);
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx > axis_len as isize {
+                return None;
+            }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, idx as isize, axis_len as isize, 1);
 
             // Values need to be reshaped to match
             let mut val_shape = arr.shape().to_vec();
-            val_shape[axis] = values.size() / (arr.size() / axis_len).max(1);
-            let vals_reshaped = values.reshape(val_shape).unwrap_or_else(|| values.clone());
+            val_shape[axis] = 1;
+            let lane_size: usize = val_shape.iter().product();
+            let vals_reshaped = if values.size() == 1 {
+                values.reshape(vec![1; ndim])?.broadcast_to(&val_shape)?
+            } else {
+                val_shape[axis] = values.size() / lane_size.max(1);
+                values.reshape(val_shape)?
+            };
 
             concatenate(&[before, vals_reshaped, after], axis)
         }
@@ -1144,13 +1152,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
         None => {
             let flat = ravel_arr(arr);
             let size = flat.size();
-            if size == 0 {
-                return Some(flat);
-            }
-            let idx = if index < 0 { (size as isize + index).max(0) as usize } else { index as usize };
-            if idx >= size {
-                return Some(flat);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx >= size as isize {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
             let after = if idx + 1 < size { flat.slice_axis(0, (idx + 1) as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1165,13 +1171,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
             }
 
             let axis_len = arr.shape()[axis];
-            if axis_len == 0 {
-                return Some(arr.clone());
-            }
-            let idx = if index < 0 { (axis_len as isize + index).max(0) as usize } else { index as usize };
-            if idx >= axis_len {
-                return Some(arr.clone());
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx >= axis_len as isize {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, (idx + 1) as isize, axis_len as isize, 1);
-- 
2.43.0


From 78077d84f3a73666c9dc35343effc07cbb5ad954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 57/70] fix: take with axis=None takes from the flattened array

---
 src/python/indexing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 5b972e7..1930b99 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -29,7 +29,13 @@ pub fn take(
         ));
     };
 
-    crate::ops::indexing::take(&a.inner, &indices_arr, axis)
+    // axis=None takes from the flattened array
+    let (arr, ax) = match axis {
+        None => (a.inner.copy().reshape(vec![a.inner.size()]).unwrap(), 0),
+        Some(ax) => (a.inner.clone(), ax),
+    };
+
+    crate::ops::indexing::take(&arr, &indices_arr, Some(ax))
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
 }
-- 
2.43.0


From 8b10fc359c7f2b30ed2755da3a9d5ae802e4b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 58/70] fix: array() of an array is a copy, not a view sharing
 its memory

---
 src/python/creation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index a04f739..b0d444b 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -302,11 +302,15 @@ pub fn asarray(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_,
     array_impl(py, obj, dtype)
 }
 
-/// Create an array (alias for asarray).
+/// Create an array. Unlike asarray, always returns a copy.
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn array(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    array_impl(py, obj, dtype)
+    let result = array_impl(py, obj, dtype)?;
+    if obj.is_instance_of::<PyRumpyArray>() {
+        return Ok(PyRumpyArray::new(result.inner.copy()));
+    }
+    Ok(result)
 }
 
 /// Implementation for array/asarray.
-- 
2.43.0


From fde69e23fe8485020b45f6e7083e2d710189f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 59/70] fix: where() of operands of different types dropped
 imaginary parts and rounded 64-bit integers

---
 src/ops/mod.rs | 49 +++++++++++++------------------------------------
 1 file changed, 13 insertions(+), 36 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 03e2a06..afec0ea 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -337,7 +337,9 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
         return Some(result);
     }
 
-    // Fallback for mixed dtypes
+    // Fallback: convert mixed dtypes to the result dtype, then copy elements
+    let x = x.astype(result_dtype.clone());
+    let y = y.astype(result_dtype.clone());
     let cond = condition.broadcast_to(&out_shape)?;
     let x_bc = x.broadcast_to(&out_shape)?;
     let y_bc = y.broadcast_to(&out_shape)?;
@@ -361,44 +363,19 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
     let x_ptr = x_bc.data_ptr();
     let y_ptr = y_bc.data_ptr();
 
-    // Check if all dtypes match for direct copy (shouldn't hit this if dispatch worked)
-    let same_dtype = x_bc.dtype() == y_bc.dtype() && x_bc.dtype() == result.dtype();
-
     let mut indices = vec![0usize; out_shape.len()];
 
-    if same_dtype {
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
-            }
-            increment_indices(&mut indices, &out_shape);
-        }
-    } else {
-        // Different dtypes: read as f64, write as f64
-        let x_dtype = x_bc.dtype();
-        let x_ops = x_dtype.ops();
-        let y_dtype = y_bc.dtype();
-        let y_ops = y_dtype.ops();
-
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            let val = if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { x_ops.read_f64(x_ptr, x_offset).unwrap_or(0.0) }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { y_ops.read_f64(y_ptr, y_offset).unwrap_or(0.0) }
-            };
-            unsafe { result_ops.write_f64(result_ptr, i, val); }
-            increment_indices(&mut indices, &out_shape);
+    for i in 0..size {
+        let cond_offset = cond.byte_offset_for(&indices);
+        let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
+        if is_true {
+            let x_offset = x_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
+        } else {
+            let y_offset = y_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
         }
+        increment_indices(&mut indices, &out_shape);
     }
 
     Some(result)
-- 
2.43.0


From bcb47038ee96a2f0e910bc6cb0b46abdaec0db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 60/70] fix: select of complex choices gave zeros

---
 src/python/misc.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 964ca46..87c2b86 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -814,10 +814,7 @@ pub fn select(
                 for cond_idx in 0..condlist.len() {
                     let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
                     if cond_val != 0 {
-                        let choice = &choices[cond_idx];
-                        let choice_dtype = choice.dtype();
-                        let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(dst_ptr, i, val); }
+                        unsafe { dst_ops.copy_element(choice_ptrs[cond_idx], choice_offsets[cond_idx][i], dst_ptr, i); }
                         break;
                     }
                 }
-- 
2.43.0


From 421b7e14cd870573a832407068fb492a7f9c761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 61/70] fix: padding an empty axis with its edge read outside
 the array

---
 src/array/manipulation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 6d1656d..bd77420 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -1206,6 +1206,10 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
             Some(result)
         }
         "edge" => {
+            // An empty axis has no edge to extend
+            if arr.shape().iter().zip(pad_width).any(|(&s, &(b, a))| s == 0 && b + a > 0) {
+                return None;
+            }
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
             let src_ops = src_dtype.ops();
-- 
2.43.0


From 1710fb11ec2fe7d26bd6717af4bf8f7225ecc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:23 +0000
Subject: [PATCH 62/70] fix: matmul of empty operands aborted the interpreter

---
 src/ops/matmul.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index 4b5f135..f2b3f3b 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -43,6 +43,11 @@ impl GufuncKernel for MatmulKernel {
         let p = b.shape()[1];
         let dtype = c.dtype();
 
+        // Nothing to add up: the output keeps its zeros, and the empty operands have no memory to pass on
+        if m == 0 || n == 0 || p == 0 {
+            return;
+        }
+
         #[cfg(feature = "accelerate")]
         {
             // Use BLAS for C-contiguous arrays
-- 
2.43.0


From 7c58fbb6060fb12244ca90d1101105fcfd5dbbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:42 +0000
Subject: [PATCH 63/70] fix: outer() and inner() rounded 64-bit integers,
 dropped imaginary parts and paired only matching leading dimensions

---
 src/ops/inner.rs | 66 +++++++++++-------------------------------------
 src/ops/outer.rs | 58 +++---------------------------------------
 2 files changed, 19 insertions(+), 105 deletions(-)

diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 503bef7..a0cafe0 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -1,52 +1,8 @@
-//! Inner product gufunc.
-//!
-//! Implements inner product with signature "(n),(n)->()".
+//! Inner product over the last axes of two arrays.
 
 use crate::array::RumpyArray;
-use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
-
-/// Inner product kernel.
-///
-/// Signature: (n),(n)->()
-pub struct InnerKernel {
-    sig: GufuncSignature,
-}
-
-impl InnerKernel {
-    pub fn new() -> Self {
-        InnerKernel {
-            sig: GufuncSignature::parse("(n),(n)->()").unwrap(),
-        }
-    }
-}
-
-impl GufuncKernel for InnerKernel {
-    fn signature(&self) -> &GufuncSignature {
-        &self.sig
-    }
-
-    fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let n = a.shape()[0];
-
-        // Inner product: sum_i a[i] * b[i]
-        let (mut re, mut im) = (0.0, 0.0);
-        for i in 0..n {
-            let (a_re, a_im) = a.get_complex_element(&[i]);
-            let (b_re, b_im) = b.get_complex_element(&[i]);
-            re += a_re * b_re - a_im * b_im;
-            im += a_re * b_im + a_im * b_re;
-        }
-
-        // Write scalar result in the output dtype
-        unsafe {
-            c.dtype().ops().write_complex(c.data_ptr() as *mut u8, 0, re, im);
-        }
-    }
-}
+use crate::ops::matmul::matmul;
+use crate::ops::BinaryOp;
 
 /// Inner product of two arrays.
 ///
@@ -62,14 +18,22 @@ impl GufuncKernel for InnerKernel {
 /// let c = rp.inner(a, b);  // 1*4 + 2*5 + 3*6 = 32
 /// ```
 ///
-/// Broadcasting with loop dimensions:
+/// Every vector of `a` with every vector of `b`:
 /// ```ignore
 /// let a = rp.zeros([3, 4]);  // (3, 4) - 3 vectors of length 4
 /// let b = rp.zeros([4]);     // (4,) - one vector
 /// let c = rp.inner(a, b);    // (3,) - 3 inner products
 /// ```
 pub fn inner(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    let kernel = InnerKernel::new();
-    let mut results = gufunc_call(&kernel, &[a, b])?;
-    results.pop()
+    if a.ndim() == 0 || b.ndim() == 0 {
+        return a.binary_op(b, BinaryOp::Mul).ok();
+    }
+    let (a_lead, n) = a.shape().split_at(a.ndim() - 1);
+    let (b_lead, k) = b.shape().split_at(b.ndim() - 1);
+    if n != k {
+        return None;
+    }
+    let a_rows = a.reshape(vec![a_lead.iter().product(), n[0]])?;
+    let b_rows = b.reshape(vec![b_lead.iter().product(), n[0]])?;
+    matmul(&a_rows, &b_rows.transpose())?.reshape([a_lead, b_lead].concat())
 }
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index bc2ea47..46ff4a8 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -1,56 +1,7 @@
-//! Outer product gufunc.
-//!
-//! Implements outer product with signature "(m),(n)->(m,n)".
+//! Outer product.
 
 use crate::array::RumpyArray;
-use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
-
-/// Outer product kernel.
-///
-/// Signature: (m),(n)->(m,n)
-pub struct OuterKernel {
-    sig: GufuncSignature,
-}
-
-impl OuterKernel {
-    pub fn new() -> Self {
-        OuterKernel {
-            sig: GufuncSignature::parse("(m),(n)->(m,n)").unwrap(),
-        }
-    }
-}
-
-impl GufuncKernel for OuterKernel {
-    fn signature(&self) -> &GufuncSignature {
-        &self.sig
-    }
-
-    fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let m = a.shape()[0];
-        let n = b.shape()[0];
-
-        let c_ptr = c.data_ptr() as *mut u8;
-        let c_stride_0 = c.strides()[0];
-        let c_stride_1 = c.strides()[1];
-
-        // Outer product: c[i,j] = a[i] * b[j]
-        for i in 0..m {
-            let (a_re, a_im) = a.get_complex_element(&[i]);
-            for j in 0..n {
-                let (b_re, b_im) = b.get_complex_element(&[j]);
-                let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
-                unsafe {
-                    let dst = c_ptr.offset(byte_offset);
-                    c.dtype().ops().write_complex(dst, 0, a_re * b_re - a_im * b_im, a_re * b_im + a_im * b_re);
-                }
-            }
-        }
-    }
-}
+use crate::ops::BinaryOp;
 
 /// Outer product of two vectors.
 ///
@@ -73,7 +24,6 @@ pub fn outer(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     let a_flat = a.reshape(vec![a.size()])?;
     let b_flat = b.reshape(vec![b.size()])?;
 
-    let kernel = OuterKernel::new();
-    let mut results = gufunc_call(&kernel, &[&a_flat, &b_flat])?;
-    results.pop()
+    // c[i,j] = a[i] * b[j], in the arrays' common dtype
+    a_flat.expand_dims(1)?.binary_op(&b_flat.expand_dims(0)?, BinaryOp::Mul).ok()
 }
-- 
2.43.0


From 65569416f0a3f316b15647f84b906a4d3efb83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 64/70] fix: dot() of vectors rounded 64-bit integers and
 dropped imaginary parts

---
 src/ops/dot.rs | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 47bf4db..02ba2a7 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -13,30 +13,12 @@ use crate::ops::matmul::matmul;
 /// Returns either a scalar (wrapped as 0D array) or an array depending on inputs.
 pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     match (a.ndim(), b.ndim()) {
-        (1, 1) => {
-            // Inner product: sum of element-wise products
-            if a.shape()[0] != b.shape()[0] {
-                return None;
-            }
-            let mut sum = 0.0;
-            for i in 0..a.shape()[0] {
-                sum += a.get_element(&[i]) * b.get_element(&[i]);
-            }
-            // Return as 0D array (scalar)
-            Some(RumpyArray::full(vec![], sum, a.dtype()))
-        }
-        (0, _) => {
+        (0, _) | (_, 0) => {
             // Scalar × array: element-wise
-            let scalar = a.get_element(&[]);
-            Some(b.scalar_op(scalar, crate::ops::BinaryOp::Mul))
-        }
-        (_, 0) => {
-            // Array × scalar: element-wise
-            let scalar = b.get_element(&[]);
-            Some(a.scalar_op(scalar, crate::ops::BinaryOp::Mul))
+            a.binary_op(b, crate::ops::BinaryOp::Mul).ok()
         }
         _ => {
-            // 2D cases (and higher): use matmul
+            // Vectors and matrices: use matmul
             matmul(a, b)
         }
     }
-- 
2.43.0


From 74b7daf0a0642d1d9a1ad0b88c75258299ec3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 65/70] fix: kron() and cross() rounded 64-bit integers and
 dropped imaginary parts

---
 src/ops/linalg.rs | 127 ++++++++--------------------------------------
 1 file changed, 20 insertions(+), 107 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index b455399..232164d 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -2,6 +2,7 @@
 
 use crate::array::{DType, RumpyArray};
 use crate::array::dtype::DTypeKind;
+use crate::ops::BinaryOp;
 use faer::prelude::SolverCore;
 use faer::{ColRef, MatRef, Side};
 
@@ -933,98 +934,18 @@ pub fn kron(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         out_shape.push(a_shape[i] * b_shape[i]);
     }
 
-    let result = RumpyArray::zeros(out_shape.clone(), DType::float64());
-
-    // For 2D case (most common)
-    if max_ndim == 2 {
-        let (m, n) = (a_shape[0], a_shape[1]);
-        let (p, q) = (b_shape[0], b_shape[1]);
-        let out_cols = out_shape[1];
-
-        // Fast path for contiguous float64 arrays
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = unsafe { *a_ptr.add(i * n + j) };
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = unsafe { *b_ptr.add(k * q + l) };
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                *out_ptr.add(out_i * out_cols + out_j) = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        } else {
-            // General path
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = a.get_element(&[i, j]);
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = b.get_element(&[k, l]);
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                let ptr = result.data_ptr().add((out_i * out_cols + out_j) * 8) as *mut f64;
-                                *ptr = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    } else if max_ndim == 1 {
-        // 1D case
-        let m = a_shape[0];
-        let p = b_shape[0];
-
-        // Fast path for contiguous float64
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                let a_val = unsafe { *a_ptr.add(i) };
-                for k in 0..p {
-                    let b_val = unsafe { *b_ptr.add(k) };
-                    unsafe {
-                        *out_ptr.add(i * p + k) = a_val * b_val;
-                    }
-                }
-            }
-        } else {
-            for i in 0..m {
-                let a_val = a.get_element(&[i]);
-                for k in 0..p {
-                    let b_val = b.get_element(&[k]);
-                    unsafe {
-                        let ptr = result.data_ptr().add((i * p + k) * 8) as *mut f64;
-                        *ptr = a_val * b_val;
-                    }
-                }
-            }
-        }
-    } else {
-        // General nD case - not yet implemented
-        return None;
+    // Every element of a with every element of b: a varies along the outer and b along the inner
+    // part of each axis
+    let mut a_outer = Vec::with_capacity(2 * max_ndim);
+    let mut b_inner = Vec::with_capacity(2 * max_ndim);
+    for i in 0..max_ndim {
+        a_outer.extend([a_shape[i], 1]);
+        b_inner.extend([1, b_shape[i]]);
     }
-
-    Some(result)
+    a.reshape(a_outer)?
+        .binary_op(&b.reshape(b_inner)?, BinaryOp::Mul)
+        .ok()?
+        .reshape(out_shape)
 }
 
 /// Cross product of two 3D vectors.
@@ -1037,22 +958,14 @@ pub fn cross(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         return None;
     }
 
-    let a0 = a.get_element(&[0]);
-    let a1 = a.get_element(&[1]);
-    let a2 = a.get_element(&[2]);
-    let b0 = b.get_element(&[0]);
-    let b1 = b.get_element(&[1]);
-    let b2 = b.get_element(&[2]);
-
-    let result = RumpyArray::zeros(vec![3], DType::float64());
-    unsafe {
-        let ptr = result.data_ptr() as *mut f64;
-        *ptr = a1 * b2 - a2 * b1;
-        *ptr.add(1) = a2 * b0 - a0 * b2;
-        *ptr.add(2) = a0 * b1 - a1 * b0;
-    }
-
-    Some(result)
+    // Views of the elements (1, 2, 0) and (2, 0, 1) in the arrays' own dtype
+    let pick = |x: &RumpyArray, order: [usize; 3]| {
+        let parts: Vec<RumpyArray> = order.iter().map(|&i| x.slice_axis(0, i as isize, i as isize + 1, 1)).collect();
+        crate::array::concatenate(&parts, 0)
+    };
+    let p = pick(a, [1, 2, 0])?.binary_op(&pick(b, [2, 0, 1])?, BinaryOp::Mul).ok()?;
+    let q = pick(a, [2, 0, 1])?.binary_op(&pick(b, [1, 2, 0])?, BinaryOp::Mul).ok()?;
+    p.binary_op(&q, BinaryOp::Sub).ok()
 }
 
 /// Singular values only (no U or Vt).
-- 
2.43.0


From 240a8b5e9e1c6455017880ceb0901beda0b0b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:40 +0000
Subject: [PATCH 66/70] fix: tensordot() outside the matrix case and
 matrix_power() lost integer and complex values

---
 src/ops/linalg.rs | 76 ++++++++---------------------------------------
 1 file changed, 13 insertions(+), 63 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 232164d..685494b 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -1010,12 +1010,12 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
         return None; // Must be square
     }
     if size == 0 {
-        return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
+        return Some(RumpyArray::zeros(vec![0, 0], a.dtype()));
     }
 
     // Handle n == 0: return identity
     if n == 0 {
-        return Some(RumpyArray::eye(size, DType::float64()));
+        return Some(RumpyArray::eye(size, a.dtype()));
     }
 
     // For negative powers, compute inverse first
@@ -1027,7 +1027,7 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
     let exp = n.unsigned_abs();
 
     // Binary exponentiation for efficiency
-    let mut result = RumpyArray::eye(size, DType::float64());
+    let mut result = RumpyArray::eye(size, base.dtype());
     let mut current = base;
     let mut remaining = exp;
 
@@ -1199,65 +1199,15 @@ pub fn tensordot(a: &RumpyArray, b: &RumpyArray, axes: (Vec<usize>, Vec<usize>))
         }
     }
 
-    if result_shape.is_empty() {
-        result_shape.push(1); // Scalar result
-    }
-
-    let result = RumpyArray::zeros(result_shape.clone(), DType::float64());
-
-    // For now, only support up to 2D arrays
-    if a.ndim() > 2 || b.ndim() > 2 {
-        return None;
-    }
-
-    // 1D cases
-    if a.ndim() == 1 && b.ndim() == 1 {
-        // Inner product
-        let mut sum = 0.0;
-        for i in 0..a.shape()[0] {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-        unsafe {
-            let ptr = result.data_ptr() as *mut f64;
-            *ptr = sum;
-        }
-        return Some(result);
+    // Bring the contracted axes together and multiply as matrices
+    let a_free: Vec<usize> = (0..a.ndim()).filter(|i| !a_axes.contains(i)).collect();
+    let b_free: Vec<usize> = (0..b.ndim()).filter(|i| !b_axes.contains(i)).collect();
+    if a_free.len() + a_axes.len() != a.ndim() || b_free.len() + b_axes.len() != b.ndim() {
+        return None; // An axis given twice
     }
-
-    // 2D x 1D or 1D x 2D
-    if a.ndim() == 2 && b.ndim() == 1 {
-        // axes=([1], [0]) means matrix-vector product
-        if a_axes == vec![1] && b_axes == vec![0] {
-            for i in 0..a.shape()[0] {
-                let mut sum = 0.0;
-                for j in 0..a.shape()[1] {
-                    sum += a.get_element(&[i, j]) * b.get_element(&[j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    if a.ndim() == 1 && b.ndim() == 2 {
-        // axes=([0], [0]) means vector-matrix product
-        if a_axes == vec![0] && b_axes == vec![0] {
-            for j in 0..b.shape()[1] {
-                let mut sum = 0.0;
-                for i in 0..a.shape()[0] {
-                    sum += a.get_element(&[i]) * b.get_element(&[i, j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(j * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    None // Unsupported case
+    let size = |x: &RumpyArray, axes: &[usize]| axes.iter().map(|&i| x.shape()[i]).product::<usize>();
+    let k = size(a, &a_axes);
+    let a_mat = a.transpose_axes(&[&a_free[..], &a_axes[..]].concat()).reshape(vec![size(a, &a_free), k])?;
+    let b_mat = b.transpose_axes(&[&b_axes[..], &b_free[..]].concat()).reshape(vec![k, size(b, &b_free)])?;
+    crate::ops::matmul::matmul(&a_mat, &b_mat)?.reshape(result_shape)
 }
-- 
2.43.0


From b43f754f699ecad434dae06c95c461572ef5a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 67/70] fix: dot() with an N-dimensional second operand
 multiplied stacks instead of contracting

---
 src/ops/dot.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 02ba2a7..8ab65b5 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -17,6 +17,10 @@ pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
             // Scalar × array: element-wise
             a.binary_op(b, crate::ops::BinaryOp::Mul).ok()
         }
+        (2.., 3..) => {
+            // Sum product over the last axis of a and the second to last of b
+            crate::ops::linalg::tensordot(a, b, (vec![a.ndim() - 1], vec![b.ndim() - 2]))
+        }
         _ => {
             // Vectors and matrices: use matmul
             matmul(a, b)
-- 
2.43.0


From 655eb1d72b4ecd1b1795962d1f16cf387637509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 68/70] fix: einsum() of complex operands lost imaginary parts
 and an empty contraction read outside the array

---
 src/ops/einsum.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 108dde2..5f8accf 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -9,6 +9,7 @@
 //! - Views returned where possible (diagonal, transpose)
 
 use crate::array::{promote_dtype, DType, RumpyArray};
+use num_complex::Complex;
 use std::collections::{HashMap, HashSet};
 
 /// Compute output dtype for einsum based on input dtypes (NumPy-compatible promotion).
@@ -286,9 +287,7 @@ fn try_single_operand_optimized(parsed: &ParsedSubscript, a: &RumpyArray) -> Opt
 
     // Check for trace: ii-> (repeated index, scalar output)
     if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.is_empty() {
-        // trace() returns f64, create scalar with input dtype
-        let trace_val = a.trace();
-        return Some(RumpyArray::full(vec![], trace_val, a.dtype().clone()));
+        return a.diagonal().sum_axis(0).reshape(vec![]);
     }
 
     // Check for diagonal: ii->i (repeated index, vector output) - returns view with same dtype
@@ -302,10 +301,9 @@ fn try_single_operand_optimized(parsed: &ParsedSubscript, a: &RumpyArray) -> Opt
         return Some(a.sum_axis(sum_axis));
     }
 
-    // Check for total sum: ij-> (sum all elements) - sum() returns f64, use input dtype
+    // Check for total sum: ij-> (sum all elements)
     if !in_sub.is_empty() && in_set.len() == in_sub.len() && out_sub.is_empty() {
-        let sum_val = a.sum();
-        return Some(RumpyArray::full(vec![], sum_val, a.dtype().clone()));
+        return a.reshape(vec![a.size()])?.sum_axis(0).reshape(vec![]);
     }
 
     None
@@ -395,7 +393,7 @@ fn einsum_single(
         }
 
         // Sum over contraction indices
-        let mut sum = 0.0f64;
+        let mut sum = Complex::new(0.0f64, 0.0);
 
         if contraction_indices.is_empty() {
             // No contraction, just copy/transpose
@@ -414,7 +412,7 @@ fn einsum_single(
             }
 
             let a_offset = compute_offset(&a_idx, a_strides);
-            let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
+            let val = unsafe { read_number(&a_dtype, a_ptr, a_offset) };
             sum = val;
         } else {
             // Iterate over contraction indices
@@ -448,7 +446,7 @@ fn einsum_single(
                 }
 
                 let a_offset = compute_offset(&a_idx, a_strides);
-                let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
+                let val = unsafe { read_number(&a_dtype, a_ptr, a_offset) };
                 sum += val;
             }
         }
@@ -456,13 +454,19 @@ fn einsum_single(
         // Write result using dtype-aware method
         let out_dtype = result.dtype();
         unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
+            out_dtype.ops().write_complex(out_ptr as *mut u8, out_flat, sum.re, sum.im);
         }
     }
 
     Ok(())
 }
 
+/// Element at a byte offset as a complex number, whatever its dtype.
+unsafe fn read_number(dtype: &DType, ptr: *const u8, offset: isize) -> Complex<f64> {
+    let (re, im) = dtype.ops().read_complex(ptr, offset).unwrap_or((0.0, 0.0));
+    Complex::new(re, im)
+}
+
 fn compute_offset(idx: &[usize], strides: &[isize]) -> isize {
     idx.iter()
         .zip(strides.iter())
@@ -682,11 +686,9 @@ fn einsum_binary_elementwise(
         }
 
         // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        let contract_iters = if contract_size == 0 { 1 } else { contract_size };
+        let mut sum = Complex::new(0.0f64, 0.0);
 
-        for c_flat in 0..contract_iters {
+        for c_flat in 0..contract_size {
             // Decode contraction position
             let mut c_idx = vec![0usize; contract_dims.len()];
             if !contract_dims.is_empty() {
@@ -703,12 +705,8 @@ fn einsum_binary_elementwise(
             let a_offset = compute_offset(&a_idx, a_strides);
             let b_offset = compute_offset(&b_idx, b_strides);
 
-            let a_val: f64 = unsafe {
-                a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0)
-            };
-            let b_val: f64 = unsafe {
-                b_dtype.ops().read_f64(b_ptr, b_offset).unwrap_or(0.0)
-            };
+            let a_val = unsafe { read_number(&a_dtype, a_ptr, a_offset) };
+            let b_val = unsafe { read_number(&b_dtype, b_ptr, b_offset) };
 
             sum += a_val * b_val;
         }
@@ -716,7 +714,7 @@ fn einsum_binary_elementwise(
         // Write result using dtype-aware method
         let out_dtype = result.dtype();
         unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
+            out_dtype.ops().write_complex(out_ptr as *mut u8, out_flat, sum.re, sum.im);
         }
     }
 
-- 
2.43.0


From 2b1e82f082f24a020dd79553b99264f6ea363118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 69/70] fix: einsum() rounded 64-bit integers outside its
 matrix cases

---
 src/ops/einsum.rs | 75 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f8accf..f4a1cf2 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -9,6 +9,7 @@
 //! - Views returned where possible (diagonal, transpose)
 
 use crate::array::{promote_dtype, DType, RumpyArray};
+use crate::array::dtype::DTypeKind;
 use num_complex::Complex;
 use std::collections::{HashMap, HashSet};
 
@@ -393,7 +394,7 @@ fn einsum_single(
         }
 
         // Sum over contraction indices
-        let mut sum = Complex::new(0.0f64, 0.0);
+        let mut sum = Sum::new(&result.dtype());
 
         if contraction_indices.is_empty() {
             // No contraction, just copy/transpose
@@ -412,8 +413,7 @@ fn einsum_single(
             }
 
             let a_offset = compute_offset(&a_idx, a_strides);
-            let val = unsafe { read_number(&a_dtype, a_ptr, a_offset) };
-            sum = val;
+            unsafe { sum.add(&[(&a_dtype, a_ptr, a_offset)]) };
         } else {
             // Iterate over contraction indices
             for c_flat in 0..contract_size {
@@ -446,25 +446,62 @@ fn einsum_single(
                 }
 
                 let a_offset = compute_offset(&a_idx, a_strides);
-                let val = unsafe { read_number(&a_dtype, a_ptr, a_offset) };
-                sum += val;
+                unsafe { sum.add(&[(&a_dtype, a_ptr, a_offset)]) };
             }
         }
 
         // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_complex(out_ptr as *mut u8, out_flat, sum.re, sum.im);
-        }
+        unsafe { sum.write(&result.dtype(), out_ptr as *mut u8, out_flat) };
     }
 
     Ok(())
 }
 
-/// Element at a byte offset as a complex number, whatever its dtype.
-unsafe fn read_number(dtype: &DType, ptr: *const u8, offset: isize) -> Complex<f64> {
-    let (re, im) = dtype.ops().read_complex(ptr, offset).unwrap_or((0.0, 0.0));
-    Complex::new(re, im)
+/// A sum of products of elements: in integers (modulo 2^64) when the result is an integer or boolean,
+/// otherwise in complex numbers.
+enum Sum {
+    Integer(i64),
+    Number(Complex<f64>),
+}
+
+impl Sum {
+    fn new(dtype: &DType) -> Self {
+        match dtype.kind() {
+            DTypeKind::Bool
+            | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+            | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => Sum::Integer(0),
+            _ => Sum::Number(Complex::new(0.0, 0.0)),
+        }
+    }
+
+    /// Add the product of the elements at the given byte offsets.
+    unsafe fn add(&mut self, factors: &[(&DType, *const u8, isize)]) {
+        match self {
+            Sum::Integer(sum) => {
+                let mut product = 1i64;
+                for (dtype, ptr, offset) in factors {
+                    product = product.wrapping_mul(dtype.ops().read_i64(*ptr, *offset).unwrap_or(0));
+                }
+                *sum = sum.wrapping_add(product);
+            }
+            Sum::Number(sum) => {
+                let mut product = None;
+                for (dtype, ptr, offset) in factors {
+                    let (re, im) = dtype.ops().read_complex(*ptr, *offset).unwrap_or((0.0, 0.0));
+                    let factor = Complex::new(re, im);
+                    product = Some(product.map_or(factor, |p: Complex<f64>| p * factor));
+                }
+                *sum += product.unwrap_or_default();
+            }
+        }
+    }
+
+    unsafe fn write(&self, dtype: &DType, ptr: *mut u8, idx: usize) {
+        match self {
+            Sum::Integer(sum) => dtype.ops().write_i64(ptr, idx, *sum),
+            Sum::Number(sum) => dtype.ops().write_complex(ptr, idx, sum.re, sum.im),
+        };
+    }
 }
 
 fn compute_offset(idx: &[usize], strides: &[isize]) -> isize {
@@ -686,7 +723,7 @@ fn einsum_binary_elementwise(
         }
 
         // Sum over contraction indices
-        let mut sum = Complex::new(0.0f64, 0.0);
+        let mut sum = Sum::new(&result.dtype());
 
         for c_flat in 0..contract_size {
             // Decode contraction position
@@ -705,17 +742,11 @@ fn einsum_binary_elementwise(
             let a_offset = compute_offset(&a_idx, a_strides);
             let b_offset = compute_offset(&b_idx, b_strides);
 
-            let a_val = unsafe { read_number(&a_dtype, a_ptr, a_offset) };
-            let b_val = unsafe { read_number(&b_dtype, b_ptr, b_offset) };
-
-            sum += a_val * b_val;
+            unsafe { sum.add(&[(&a_dtype, a_ptr, a_offset), (&b_dtype, b_ptr, b_offset)]) };
         }
 
         // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_complex(out_ptr as *mut u8, out_flat, sum.re, sum.im);
-        }
+        unsafe { sum.write(&result.dtype(), out_ptr as *mut u8, out_flat) };
     }
 
     Ok(())
-- 
2.43.0


From bf3b91f38bb08403756253aff65fb82207fbe4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 70/70] fix: trace() and vdot() of complex arrays gave zero

---
 src/ops/linalg.rs         |  9 +++++++++
 src/python/linalg.rs      | 21 ++++++++++++++++++---
 src/python/pyarray/mod.rs | 10 ++++++++--
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 685494b..c6bbece 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -910,6 +910,15 @@ pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
     Some(sum)
 }
 
+/// `vdot` of arrays of which at least one is complex.
+pub fn vdot_complex(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    if a.size() != b.size() {
+        return None;
+    }
+    let a = a.conj().reshape(vec![a.size()])?;
+    crate::ops::matmul::matmul(&a, &b.reshape(vec![b.size()])?)
+}
+
 /// Kronecker product of two arrays.
 pub fn kron(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     if a.ndim() < 1 || b.ndim() < 1 {
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 70f6769..86863f9 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -5,8 +5,14 @@
 use pyo3::prelude::*;
 use crate::ops::linalg as linalg_ops;
 use crate::ops::solve as solve_ops;
+use crate::array::dtype::DTypeKind;
+use crate::python::pyarray::ReductionResult;
 use crate::python::PyRumpyArray;
 
+fn is_complex(a: &crate::array::RumpyArray) -> bool {
+    matches!(a.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128)
+}
+
 // ============================================================================
 // Top-level linear algebra functions (exposed as np.X)
 // ============================================================================
@@ -45,8 +51,12 @@ pub fn outer(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Compute trace of a matrix (sum of diagonal elements).
 #[pyfunction]
-pub fn trace(a: &PyRumpyArray) -> PyResult<f64> {
+pub fn trace(a: &PyRumpyArray) -> PyResult<ReductionResult> {
+    if a.inner.ndim() == 2 && is_complex(&a.inner) {
+        return Ok(a.trace());
+    }
     linalg_ops::trace(&a.inner)
+        .map(ReductionResult::Scalar)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))
 }
 
@@ -60,8 +70,13 @@ pub fn diag(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Vector dot product (flattens arrays then computes inner product).
 #[pyfunction]
-pub fn vdot(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<f64> {
-    linalg_ops::vdot(&a.inner, &b.inner)
+pub fn vdot(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<ReductionResult> {
+    let product = if is_complex(&a.inner) || is_complex(&b.inner) {
+        linalg_ops::vdot_complex(&a.inner, &b.inner).map(|r| ReductionResult::Array(PyRumpyArray::new(r)))
+    } else {
+        linalg_ops::vdot(&a.inner, &b.inner).map(ReductionResult::Scalar)
+    };
+    product
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vdot: arrays must have same total size"))
 }
 
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 75061bb..c4ed696 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -360,8 +360,14 @@ impl PyRumpyArray {
     }
 
     /// Sum of diagonal elements.
-    fn trace(&self) -> f64 {
-        self.inner.trace()
+    pub(crate) fn trace(&self) -> ReductionResult {
+        use crate::array::dtype::DTypeKind;
+        if matches!(self.inner.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+            let diagonal = self.inner.diagonal();
+            let sum = diagonal.reshape(vec![diagonal.size()]).and_then(|d| d.sum_axis(0).reshape(vec![]));
+            return ReductionResult::Array(Self::new(sum.expect("one element")));
+        }
+        ReductionResult::Scalar(self.inner.trace())
     }
 
     /// Swap two axes.
-- 
2.43.0

