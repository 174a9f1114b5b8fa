From 0ca859fdc3e885920ec6d863ba42d1612e7edd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:29 +0000
Subject: [PATCH 01/26] fix: ConstantOfShape refuses negative dimensions and
 reads float-stored shape constants

---
 rust/jstprove_onnx/src/shape_inference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 7dde0bb..38fe8a6 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -1022,7 +1022,7 @@ fn infer_constant_of_shape(
             )
         })?;
 
-    let out_shape: Vec<usize> = shape_td.int_data.iter().map(|&v| v as usize).collect();
+    let out_shape = nonneg_to_usize(&shape_td.as_i64_vec(), "shape", &layer.name)?;
 
     Ok(layer
         .outputs
-- 
2.43.0


From e1e65bc362dbcc6c60c8d283d4ae979c6e11a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:25 +0000
Subject: [PATCH 02/26] fix: folding Gather/Slice of float constants keeps the
 exact values, no step overflow

---
 rust/jstprove_onnx/src/shape_inference.rs | 62 +++++++++++++++--------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 38fe8a6..624853e 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -131,6 +131,24 @@ fn fold_shape(layer: &LayerNode, shapes: &HashMap<String, Vec<usize>>) -> Option
     })
 }
 
+/// Select flat `positions` from whichever representation holds the constant's
+/// values, keeping float values exact. Returns `None` if a position is missing.
+fn select_values(td: &TensorData, positions: &[usize]) -> Option<(Vec<f64>, Vec<i64>)> {
+    if td.int_data.is_empty() {
+        let floats: Option<Vec<f64>> = positions
+            .iter()
+            .map(|&p| td.float_data.get(p).copied())
+            .collect();
+        Some((floats?, vec![]))
+    } else {
+        let ints: Option<Vec<i64>> = positions
+            .iter()
+            .map(|&p| td.int_data.get(p).copied())
+            .collect();
+        Some((vec![], ints?))
+    }
+}
+
 #[allow(clippy::cast_possible_wrap, clippy::cast_sign_loss)]
 fn fold_gather(
     layer: &LayerNode,
@@ -159,28 +177,27 @@ fn fold_gather(
         return None;
     }
 
-    let data_vals = data_td.as_i64_vec();
     let indices_vals = indices_td.as_i64_vec();
     let indices_shape = indices_td.shape();
     let dim_size = data_shape[axis] as i64;
 
     if data_shape.len() == 1 {
-        let gathered: Option<Vec<i64>> = indices_vals
+        let positions: Vec<usize> = indices_vals
             .iter()
             .map(|&idx| {
                 let idx = if idx < 0 { idx + dim_size } else { idx };
-                data_vals.get(idx as usize).copied()
+                idx as usize
             })
             .collect();
-        let gathered = gathered?;
+        let (float_data, int_data) = select_values(data_td, &positions)?;
 
         let out_dims: Vec<i64> = indices_shape.iter().map(|&d| d as i64).collect();
         return Some(TensorData {
             name: String::new(),
             dims: out_dims,
             data_type: data_td.data_type,
-            float_data: vec![],
-            int_data: gathered,
+            float_data,
+            int_data,
         });
     }
 
@@ -189,7 +206,7 @@ fn fold_gather(
     let axis_size = data_shape[axis];
     let n_indices = indices_vals.len();
 
-    let mut gathered = Vec::with_capacity(outer_size * n_indices * inner_size);
+    let mut positions = Vec::with_capacity(outer_size * n_indices * inner_size);
     for o in 0..outer_size {
         for &idx_raw in &indices_vals {
             let idx = if idx_raw < 0 {
@@ -201,9 +218,10 @@ fn fold_gather(
                 return None;
             }
             let src_base = o * axis_size * inner_size + idx * inner_size;
-            gathered.extend_from_slice(&data_vals[src_base..src_base + inner_size]);
+            positions.extend(src_base..src_base + inner_size);
         }
     }
+    let (float_data, int_data) = select_values(data_td, &positions)?;
 
     let mut out_dims: Vec<i64> = data_shape[..axis].iter().map(|&d| d as i64).collect();
     out_dims.extend(indices_shape.iter().map(|&d| d as i64));
@@ -213,8 +231,8 @@ fn fold_gather(
         name: String::new(),
         dims: out_dims,
         data_type: data_td.data_type,
-        float_data: vec![],
-        int_data: gathered,
+        float_data,
+        int_data,
     })
 }
 
@@ -516,8 +534,11 @@ fn fold_slice(
 
     let starts = starts_td.as_i64_vec();
     let ends = ends_td.as_i64_vec();
-    let data = input_td.as_i64_vec();
-    let dim = data.len() as i64;
+    let dim = if input_td.int_data.is_empty() {
+        input_td.float_data.len() as i64
+    } else {
+        input_td.int_data.len() as i64
+    };
 
     let axes: Vec<i64> = if let Some(axes_name) = layer.inputs.get(3).filter(|n| !n.is_empty()) {
         lookup_constant(axes_name, initializers, constant_tensors)?.as_i64_vec()
@@ -551,12 +572,12 @@ fn fold_slice(
     start = start.clamp(0, dim);
     end = end.clamp(0, dim);
 
-    let sliced: Vec<i64> = if step > 0 {
+    let positions: Vec<usize> = if step > 0 {
         let mut v = Vec::new();
         let mut i = start;
         while i < end {
-            v.push(data[i as usize]);
-            i += step;
+            v.push(i as usize);
+            i = i.saturating_add(step);
         }
         v
     } else {
@@ -575,18 +596,19 @@ fn fold_slice(
         let mut v = Vec::new();
         let mut i = start;
         while i > end {
-            v.push(data[i as usize]);
-            i += step;
+            v.push(i as usize);
+            i = i.saturating_add(step);
         }
         v
     };
+    let (float_data, int_data) = select_values(input_td, &positions)?;
 
     Some(TensorData {
         name: String::new(),
-        dims: vec![sliced.len() as i64],
+        dims: vec![positions.len() as i64],
         data_type: input_td.data_type,
-        float_data: vec![],
-        int_data: sliced,
+        float_data,
+        int_data,
     })
 }
 
-- 
2.43.0


From a01853d21240d883e945b5e0d1fedd8de3b1d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:25 +0000
Subject: [PATCH 03/26] fix: folding Cast converts the stored values to the
 target type

---
 rust/jstprove_onnx/src/shape_inference.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 624853e..6c143ad 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -621,12 +621,22 @@ fn fold_cast(
     let input_td = lookup_constant(input_name, initializers, constant_tensors)?;
     let to = layer.get_int_attr("to")?;
 
+    // Store the values in the representation of the target type, so that a
+    // float cast to an integer type is truncated for every later use.
+    let (float_data, int_data) = match to {
+        // FLOAT, FLOAT16, DOUBLE, BFLOAT16
+        1 | 10 | 11 | 16 => (input_td.as_f64_vec(), vec![]),
+        // UINT8, INT8, UINT16, INT16, INT32, INT64, UINT32, UINT64
+        2..=7 | 12 | 13 => (vec![], input_td.as_i64_vec()),
+        _ => (input_td.float_data.clone(), input_td.int_data.clone()),
+    };
+
     Some(TensorData {
         name: String::new(),
         dims: input_td.dims.clone(),
         data_type: to as i32,
-        float_data: input_td.float_data.clone(),
-        int_data: input_td.int_data.clone(),
+        float_data,
+        int_data,
     })
 }
 
-- 
2.43.0


From f58c6436ee1f987b98e3f8bba19616d64423817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:45 +0000
Subject: [PATCH 04/26] fix: Max and Min broadcast their operands in shape
 inference

---
 rust/jstprove_onnx/src/shape_inference.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 6c143ad..ffae39a 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -714,9 +714,8 @@ fn infer_layer_output_shape(
         OpType::Conv => infer_conv(layer, shapes),
         OpType::Gemm => infer_gemm(layer, shapes),
         OpType::BatchNormalization => passthrough_shape(layer, input_shape),
-        OpType::Relu | OpType::Max | OpType::Min | OpType::Clip => {
-            passthrough_shape(layer, input_shape)
-        }
+        OpType::Relu | OpType::Clip => passthrough_shape(layer, input_shape),
+        OpType::Max | OpType::Min => infer_broadcast_binary(layer, shapes),
         OpType::MaxPool => infer_maxpool(layer, input_shape),
         OpType::Add | OpType::Sub | OpType::Div => infer_broadcast_binary(layer, shapes),
         OpType::Mul => infer_broadcast_binary(layer, shapes),
-- 
2.43.0


From daf5e6d958f18df754b4873234e585986641b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:55 +0000
Subject: [PATCH 05/26] fix: pooling shape inference honours dilations and
 refuses ceil_mode rounding

---
 rust/jstprove_onnx/src/shape_inference.rs | 33 +++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index ffae39a..d041977 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -1117,6 +1117,13 @@ fn infer_maxpool(
         vec![0; kernel.len() * 2]
     };
 
+    let dilations = if let Some(v) = layer.get_ints_attr("dilations") {
+        nonneg_to_usize(v, "dilations", &layer.name)?
+    } else {
+        vec![1; kernel.len()]
+    };
+    let ceil_mode = layer.get_int_attr("ceil_mode").unwrap_or(0) != 0;
+
     let spatial_dims = kernel.len();
 
     if input_shape.len() < 2 + spatial_dims {
@@ -1126,12 +1133,16 @@ fn infer_maxpool(
             input_shape.len()
         );
     }
-    if pads.len() < 2 * spatial_dims || strides.len() < spatial_dims {
+    if pads.len() < 2 * spatial_dims
+        || strides.len() < spatial_dims
+        || dilations.len() < spatial_dims
+    {
         bail!(
-            "layer {}: MaxPool attribute length mismatch: pads={} strides={} spatial_dims={spatial_dims}",
+            "layer {}: MaxPool attribute length mismatch: pads={} strides={} dilations={} spatial_dims={spatial_dims}",
             layer.name,
             pads.len(),
-            strides.len()
+            strides.len(),
+            dilations.len()
         );
     }
 
@@ -1139,6 +1150,7 @@ fn infer_maxpool(
     for i in 0..spatial_dims {
         let in_dim = input_shape[2 + i];
         let pad = pads[i] + pads[spatial_dims + i];
+        let effective_kernel = (kernel[i] - 1) * dilations[i] + 1;
         let padded = in_dim + pad;
         if strides[i] == 0 {
             bail!(
@@ -1146,14 +1158,19 @@ fn infer_maxpool(
                 layer.name
             );
         }
-        if padded < kernel[i] {
+        if padded < effective_kernel {
             bail!(
-                "layer {}: MaxPool padded input {padded} < kernel {k} at spatial dim {i}",
-                layer.name,
-                k = kernel[i]
+                "layer {}: MaxPool padded input {padded} < effective kernel {effective_kernel} at spatial dim {i}",
+                layer.name
             );
         }
-        let out_dim = (padded - kernel[i]) / strides[i] + 1;
+        if ceil_mode && (padded - effective_kernel) % strides[i] != 0 {
+            bail!(
+                "layer {}: MaxPool ceil_mode=1 rounds up spatial dim {i}, which is not supported",
+                layer.name
+            );
+        }
+        let out_dim = (padded - effective_kernel) / strides[i] + 1;
         out_shape.push(out_dim);
     }
 
-- 
2.43.0


From 6248b533ab30913d614ae73d8bca3681ffb79acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:04 +0000
Subject: [PATCH 06/26] fix: convolution and pooling refuse auto_pad modes that
 shape inference does not compute

---
 rust/jstprove_onnx/src/shape_inference.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index d041977..f0cb13c 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -702,6 +702,15 @@ fn nonneg_to_usize(vals: &[i64], attr: &str, layer_name: &str) -> Result<Vec<usi
         .collect()
 }
 
+/// Padding is taken from `pads` only; `auto_pad` modes that derive it from the
+/// input extent are refused rather than treated as zero padding.
+fn ensure_explicit_padding(layer: &LayerNode) -> Result<()> {
+    match layer.get_string_attr("auto_pad") {
+        None | Some("") | Some("NOTSET") | Some("VALID") => Ok(()),
+        Some(mode) => bail!("layer {}: auto_pad={mode} is not supported", layer.name),
+    }
+}
+
 fn infer_layer_output_shape(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
@@ -853,6 +862,7 @@ fn infer_conv(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
 ) -> Result<Vec<(String, Vec<usize>)>> {
+    ensure_explicit_padding(layer)?;
     let input_shape = layer
         .inputs
         .first()
@@ -1092,6 +1102,7 @@ fn infer_maxpool(
     layer: &LayerNode,
     input_shape: Option<&Vec<usize>>,
 ) -> Result<Vec<(String, Vec<usize>)>> {
+    ensure_explicit_padding(layer)?;
     let input_shape = input_shape
         .ok_or_else(|| anyhow::anyhow!("layer {}: MaxPool missing input shape", layer.name))?;
 
@@ -2784,6 +2795,7 @@ fn infer_conv_transpose(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
 ) -> Result<Vec<(String, Vec<usize>)>> {
+    ensure_explicit_padding(layer)?;
     let input_name = layer
         .inputs
         .first()
-- 
2.43.0


From 2fa21ba74807b39a0d1bae1e65f07f52bace8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 07/26] fix: Reduce with empty axes reduces every axis unless
 noop_with_empty_axes is set

---
 rust/jstprove_onnx/src/shape_inference.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index f0cb13c..56150fc 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -2402,6 +2402,7 @@ fn infer_reduce(
         .ok_or_else(|| anyhow::anyhow!("layer {}: ReduceMean missing input shape", layer.name))?;
     let rank = input_shape.len();
     let keepdims = layer.get_int_attr("keepdims").unwrap_or(1) != 0;
+    let noop_with_empty_axes = layer.get_int_attr("noop_with_empty_axes").unwrap_or(0) != 0;
 
     // axes: from input[1] (opset 18+) → attribute (opset ≤ 17) → all axes.
     // If input[1] is present but is not a compile-time constant, bail: dynamic
@@ -2432,6 +2433,7 @@ fn infer_reduce(
     let axes: Vec<usize> = if let Some(raw_axes) = axes_from_input
         .as_deref()
         .or_else(|| layer.get_ints_attr("axes"))
+        .filter(|raw| !raw.is_empty())
     {
         raw_axes
             .iter()
@@ -2448,6 +2450,8 @@ fn infer_reduce(
                 Ok(a as usize)
             })
             .collect::<Result<Vec<usize>>>()?
+    } else if noop_with_empty_axes {
+        vec![]
     } else {
         (0..rank).collect()
     };
-- 
2.43.0


From ebee6ce62f89a3f2021d03e1221b5a6daf9ae06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 08/26] fix: uncompressed blobs that start with the zstd magic
 read back unchanged

---
 rust/jstprove_io/src/bundle.rs   | 5 ++++-
 rust/jstprove_io/src/compress.rs | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_io/src/bundle.rs b/rust/jstprove_io/src/bundle.rs
index 304cc1e..4a1f0af 100644
--- a/rust/jstprove_io/src/bundle.rs
+++ b/rust/jstprove_io/src/bundle.rs
@@ -5,6 +5,7 @@ use anyhow::Result;
 use serde::{de::DeserializeOwned, Serialize};
 
 use crate::compress::{auto_reader, compressed_writer};
+use crate::envelope::ZSTD_MAGIC;
 use crate::version::ArtifactVersion;
 
 const CIRCUIT_FILENAME: &str = "circuit.bin";
@@ -204,7 +205,9 @@ pub fn read_bundle_metadata<M: DeserializeOwned>(
 
 fn write_blob(path: impl AsRef<Path>, data: &[u8], compress: bool) -> Result<()> {
     let file = std::fs::File::create(path.as_ref())?;
-    let mut writer = compressed_writer(file, compress)?;
+    // Data that itself starts with the zstd magic would be decompressed by
+    // `auto_reader`, so it is always framed.
+    let mut writer = compressed_writer(file, compress || data.starts_with(&ZSTD_MAGIC))?;
     writer.write_all(data)?;
     writer.finish()?;
     Ok(())
diff --git a/rust/jstprove_io/src/compress.rs b/rust/jstprove_io/src/compress.rs
index 733fee0..5ad6091 100644
--- a/rust/jstprove_io/src/compress.rs
+++ b/rust/jstprove_io/src/compress.rs
@@ -16,7 +16,9 @@ pub fn decompress_bytes(data: &[u8]) -> Result<Vec<u8>> {
 }
 
 pub fn maybe_compress_bytes(data: Vec<u8>, compress: bool) -> Result<Vec<u8>> {
-    if compress {
+    // Data that itself starts with the zstd magic would be decompressed by
+    // `auto_decompress_bytes`, so it is always framed.
+    if compress || data.starts_with(&ZSTD_MAGIC) {
         compress_bytes(&data)
     } else {
         Ok(data)
-- 
2.43.0


From d73ffcf22597b3bc1bfb89f9b01f3714527e900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 09/26] fix: a bundle write that fails inside a file removes
 the partial file

---
 rust/jstprove_io/src/bundle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_io/src/bundle.rs b/rust/jstprove_io/src/bundle.rs
index 4a1f0af..0a6fe5b 100644
--- a/rust/jstprove_io/src/bundle.rs
+++ b/rust/jstprove_io/src/bundle.rs
@@ -33,14 +33,13 @@ impl WriteGuard {
     }
 
     fn write_blob(&mut self, path: PathBuf, data: &[u8], compress: bool) -> Result<()> {
-        write_blob(&path, data, compress)?;
-        self.paths.push(path);
-        Ok(())
+        self.paths.push(path.clone());
+        write_blob(&path, data, compress)
     }
 
     fn serialize_to_file<T: Serialize>(&mut self, val: &T, path: PathBuf) -> Result<()> {
+        self.paths.push(path.clone());
         crate::serialize_to_file(val, &path, false)?;
-        self.paths.push(path);
         Ok(())
     }
 
-- 
2.43.0


From 5593d0d2c626450aba0a2502b8fa1b25603dbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 10/26] fix: deserialize_from_file accepts legacy artifacts
 shorter than an envelope header

---
 rust/jstprove_io/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 01feaea..45ce5e8 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -76,8 +76,11 @@ pub fn deserialize_from_bytes<T: DeserializeOwned>(data: &[u8]) -> Result<T> {
 pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
     let file = std::fs::File::open(path)?;
     let mut reader = BufReader::new(file);
-    let mut header_buf = [0u8; ENVELOPE_HEADER_LEN];
-    reader.read_exact(&mut header_buf)?;
+    let mut header_buf = Vec::with_capacity(ENVELOPE_HEADER_LEN);
+    reader
+        .by_ref()
+        .take(ENVELOPE_HEADER_LEN as u64)
+        .read_to_end(&mut header_buf)?;
 
     match envelope::detect_format(&header_buf) {
         DetectedFormat::Envelope => {
-- 
2.43.0


From 4e812945da88f564c694bb2133cb24909497bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 11/26] fix: deserialize_from_file checks the length and
 checksum of the whole payload

---
 rust/jstprove_io/src/lib.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 45ce5e8..4229d0c 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -85,18 +85,27 @@ pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
     match envelope::detect_format(&header_buf) {
         DetectedFormat::Envelope => {
             let header = envelope::parse_header(&header_buf)?;
-            let crc_state = std::rc::Rc::new(std::cell::Cell::new(0u32));
-            let crc_reader = Crc32cReader {
+            let mut crc_reader = Crc32cReader {
                 inner: reader.take(header.payload_len),
-                crc: std::rc::Rc::clone(&crc_state),
+                crc: 0,
             };
             let result = if header.compressed {
-                let decoder = zstd::stream::read::Decoder::new(crc_reader)?;
+                let decoder = zstd::stream::read::Decoder::new(&mut crc_reader)?;
                 rmp_serde::from_read(BufReader::new(decoder))?
             } else {
-                rmp_serde::from_read(BufReader::new(crc_reader))?
+                rmp_serde::from_read(BufReader::new(&mut crc_reader))?
             };
-            envelope::verify_crc_computed(crc_state.get(), header.crc32)?;
+            // The checksum covers the whole declared payload, not only the
+            // bytes the decoder happened to pull.
+            std::io::copy(&mut crc_reader, &mut std::io::sink())?;
+            let missing = crc_reader.inner.limit();
+            if missing > 0 {
+                anyhow::bail!(
+                    "truncated envelope: declared payload {} bytes but {missing} are missing",
+                    header.payload_len
+                );
+            }
+            envelope::verify_crc_computed(crc_reader.crc, header.crc32)?;
             Ok(result)
         }
         DetectedFormat::LegacyZstd => {
@@ -113,15 +122,14 @@ pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
 
 struct Crc32cReader<R> {
     inner: R,
-    crc: std::rc::Rc<std::cell::Cell<u32>>,
+    crc: u32,
 }
 
 impl<R: Read> Read for Crc32cReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let n = self.inner.read(buf)?;
         if n > 0 {
-            self.crc
-                .set(crc32c::crc32c_append(self.crc.get(), &buf[..n]));
+            self.crc = crc32c::crc32c_append(self.crc, &buf[..n]);
         }
         Ok(n)
     }
-- 
2.43.0


From ce5ce0a5af28f8af54f9755f8e9cdab2ebb49f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:17 +0000
Subject: [PATCH 12/26] fix: finishing a compressed writer reports errors of
 the last buffered write

---
 rust/jstprove_io/src/compress.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_io/src/compress.rs b/rust/jstprove_io/src/compress.rs
index 5ad6091..493d3c2 100644
--- a/rust/jstprove_io/src/compress.rs
+++ b/rust/jstprove_io/src/compress.rs
@@ -57,10 +57,8 @@ impl Write for MaybeCompressed {
 impl MaybeCompressed {
     pub fn finish(self) -> io::Result<()> {
         match self {
-            Self::Compressed(enc) => {
-                enc.finish()?;
-                Ok(())
-            }
+            // dropping the buffered writer would swallow its last write error
+            Self::Compressed(enc) => enc.finish()?.flush(),
             Self::Plain(mut w) => w.flush(),
         }
     }
-- 
2.43.0


From cac6094b4c8e0e2aad6a935ab09b5da7cfe22d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 13/26] fix: a tensor whose data do not match its dims is
 refused instead of loaded incomplete

---
 rust/jstprove_onnx/src/parser.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index 8fe2bd9..64288aa 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::path::Path;
 
-use anyhow::{bail, Context, Result};
+use anyhow::{bail, ensure, Context, Result};
 use prost::Message;
 
 use super::attribute_proto::AttributeType;
@@ -102,21 +102,25 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
     if let Some(ref raw) = tensor.raw_data {
         match dt {
             DataType::Float => {
+                ensure!(raw.len() % 4 == 0, "tensor {name}: truncated raw_data");
                 for chunk in raw.chunks_exact(4) {
                     float_data.push(f32::from_le_bytes(chunk.try_into().unwrap()) as f64);
                 }
             }
             DataType::Double => {
+                ensure!(raw.len() % 8 == 0, "tensor {name}: truncated raw_data");
                 for chunk in raw.chunks_exact(8) {
                     float_data.push(f64::from_le_bytes(chunk.try_into().unwrap()));
                 }
             }
             DataType::Int32 => {
+                ensure!(raw.len() % 4 == 0, "tensor {name}: truncated raw_data");
                 for chunk in raw.chunks_exact(4) {
                     int_data.push(i32::from_le_bytes(chunk.try_into().unwrap()) as i64);
                 }
             }
             DataType::Int64 => {
+                ensure!(raw.len() % 8 == 0, "tensor {name}: truncated raw_data");
                 for chunk in raw.chunks_exact(8) {
                     int_data.push(i64::from_le_bytes(chunk.try_into().unwrap()));
                 }
@@ -135,6 +139,19 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
         int_data.extend(tensor.int64_data.iter().copied());
     }
 
+    let mut elements = 1usize;
+    for &d in &dims {
+        elements = usize::try_from(d)
+            .ok()
+            .and_then(|d| elements.checked_mul(d))
+            .with_context(|| format!("tensor {name}: invalid dims {dims:?}"))?;
+    }
+    ensure!(
+        float_data.len() + int_data.len() == elements,
+        "tensor {name}: dims {dims:?} need {elements} elements, got {}",
+        float_data.len() + int_data.len()
+    );
+
     Ok(TensorData {
         name,
         dims,
-- 
2.43.0


From e93fbcd92936b03a23b19c7d2ee60f8184ac10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 14/26] fix: typed tensor data of types that are stored as bit
 patterns are refused

---
 rust/jstprove_onnx/src/parser.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index 64288aa..bf5b2cd 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -133,10 +133,24 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
             other => bail!("unsupported tensor data type in raw_data: {other:?}"),
         }
     } else {
-        float_data.extend(tensor.float_data.iter().map(|f| *f as f64));
-        float_data.extend(tensor.double_data.iter().copied());
-        int_data.extend(tensor.int32_data.iter().map(|i| *i as i64));
-        int_data.extend(tensor.int64_data.iter().copied());
+        match dt {
+            DataType::Float
+            | DataType::Double
+            | DataType::Int8
+            | DataType::Int16
+            | DataType::Int32
+            | DataType::Int64
+            | DataType::Uint8
+            | DataType::Uint16
+            | DataType::Bool => {
+                float_data.extend(tensor.float_data.iter().map(|f| *f as f64));
+                float_data.extend(tensor.double_data.iter().copied());
+                int_data.extend(tensor.int32_data.iter().map(|i| *i as i64));
+                int_data.extend(tensor.int64_data.iter().copied());
+            }
+            // int32_data holds bit patterns for the remaining types
+            other => bail!("unsupported tensor data type: {other:?}"),
+        }
     }
 
     let mut elements = 1usize;
-- 
2.43.0


From 7d52095b29bd6f3360dc3c17c19df1f27a58a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 15/26] fix: an attribute whose zero value is not on the wire
 is kept, not dropped

---
 rust/jstprove_onnx/src/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index bf5b2cd..6d7ba7c 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -207,12 +207,14 @@ fn parse_attribute(attr: &AttributeProto) -> Result<Option<AttrValue>> {
     let attr_type = attr.r#type.and_then(|t| AttributeType::try_from(t).ok());
 
     match attr_type {
-        Some(AttributeType::Float) => Ok(attr.f.map(AttrValue::Float)),
-        Some(AttributeType::Int) => Ok(attr.i.map(AttrValue::Int)),
-        Some(AttributeType::String) => Ok(attr
-            .s
-            .as_ref()
-            .map(|s| AttrValue::String(String::from_utf8_lossy(s).to_string()))),
+        Some(AttributeType::Float) => Ok(Some(AttrValue::Float(attr.f.unwrap_or(0.0)))),
+        Some(AttributeType::Int) => Ok(Some(AttrValue::Int(attr.i.unwrap_or(0)))),
+        Some(AttributeType::String) => {
+            let s = attr.s.as_deref().unwrap_or_default();
+            Ok(Some(AttrValue::String(
+                String::from_utf8_lossy(s).to_string(),
+            )))
+        }
         Some(AttributeType::Floats) => Ok(Some(AttrValue::Floats(attr.floats.clone()))),
         Some(AttributeType::Ints) => Ok(Some(AttrValue::Ints(attr.ints.clone()))),
         Some(AttributeType::Tensor) => {
-- 
2.43.0


From 2aa50bc99ab8936f9a4b3c74491fac586efed30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:32 +0000
Subject: [PATCH 16/26] fix: the bound of a ReduceSum layer scales the bound of
 its operand, constant or not

---
 rust/jstprove_onnx/src/quantizer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 02455b3..8ab16ad 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -340,7 +340,6 @@ fn compute_max_bound_inner(graph: &LayerGraph) -> Result<f64> {
 
         if layer.op_type == OpType::ReduceSum {
             if let Some(in_name) = layer.inputs.first() {
-                let m_in = bounds.get(in_name.as_str()).copied().unwrap_or(1.0);
                 if let (Some(in_shape), Some(out_name)) =
                     (shapes.get(in_name.as_str()), layer.outputs.first())
                 {
@@ -350,7 +349,7 @@ fn compute_max_bound_inner(graph: &LayerGraph) -> Result<f64> {
                         .map(|s| s.iter().product())
                         .unwrap_or(1);
                     let factor = (in_total / out_total.max(1)).max(1) as f64;
-                    bound = m_in * factor;
+                    bound *= factor;
                 }
             }
         }
@@ -1248,7 +1247,6 @@ fn compute_bounds(graph: &LayerGraph, config: &ScaleConfig) -> Result<HashMap<St
         // returns just m_in; override that here now that we have shapes.
         if layer.op_type == OpType::ReduceSum {
             if let Some(in_name) = layer.inputs.first() {
-                let m_in = bounds.get(in_name.as_str()).copied().unwrap_or(1.0);
                 if let (Some(in_shape), Some(out_name)) =
                     (shapes.get(in_name.as_str()), layer.outputs.first())
                 {
@@ -1258,7 +1256,7 @@ fn compute_bounds(graph: &LayerGraph, config: &ScaleConfig) -> Result<HashMap<St
                         .map(|s| s.iter().product())
                         .unwrap_or(1);
                     let factor = (in_total / out_total.max(1)).max(1) as f64;
-                    bound = m_in * factor;
+                    bound *= factor;
                 }
             }
         }
-- 
2.43.0


From 0070b35b706a14a1d1bb4beeacf109c1b2f91710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:32 +0000
Subject: [PATCH 17/26] fix: layers sharing a name keep the widest n_bits

---
 rust/jstprove_onnx/src/quantizer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 8ab16ad..f7978cb 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1298,7 +1298,13 @@ fn compute_bounds(graph: &LayerGraph, config: &ScaleConfig) -> Result<HashMap<St
                 );
             }
             let n_bits = compute_n_bits(alpha, bound);
-            n_bits_config.insert(layer.name.clone(), n_bits);
+            // Layers sharing a name share the entry: keep the widest.
+            let widest = n_bits_config
+                .get(&layer.name)
+                .copied()
+                .unwrap_or(0)
+                .max(n_bits);
+            n_bits_config.insert(layer.name.clone(), widest);
         }
 
         // TopK output[0] = values (bound = m_in), output[1] = indices
-- 
2.43.0


From ddf47df7eeb7f935abc9cff0e4fa13fa548780ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:32 +0000
Subject: [PATCH 18/26] fix: the bounds of Max, Min and Clip cover every
 operand

---
 rust/jstprove_onnx/src/quantizer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index f7978cb..4214472 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1514,13 +1514,19 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::MaxPool | OpType::Max | OpType::Min => {
+        OpType::MaxPool => {
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
+        // The result is the input or one of the limits; an empty name is an absent limit.
         OpType::Clip => {
-            let m_in = get_input_bound(0);
-            Ok(m_in)
+            let mut max_bound = get_input_bound(0);
+            for i in 1..layer.inputs.len().min(3) {
+                if !layer.inputs[i].is_empty() {
+                    max_bound = max_bound.max(get_input_bound(i));
+                }
+            }
+            Ok(max_bound)
         }
         OpType::Cast
         | OpType::Reshape
@@ -1536,7 +1542,8 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::Concat => {
+        // The result can be any of the operands, so every one of them counts.
+        OpType::Concat | OpType::Max | OpType::Min => {
             let mut max_bound = 0.0_f64;
             for i in 0..layer.inputs.len() {
                 max_bound = max_bound.max(get_input_bound(i));
-- 
2.43.0


From cd9a0a06cd3acadae7b85ca9cf3f36dce52cf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:32 +0000
Subject: [PATCH 19/26] fix: a constant vector on the left of MatMul is one row

---
 rust/jstprove_onnx/src/quantizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 4214472..7db39f7 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1612,7 +1612,7 @@ fn compute_layer_bound(
                     if !vals.is_empty() {
                         let m_b = get_input_bound(1);
                         let d = w.shape();
-                        let n_cols = if d.len() >= 2 { *d.last().unwrap() } else { 1 };
+                        let n_cols = d.last().copied().unwrap_or(1);
                         let n_rows = if n_cols > 0 { vals.len() / n_cols } else { 1 };
                         let max_row_l1 = if n_rows > 0 && n_cols > 0 {
                             (0..n_rows)
-- 
2.43.0


From 1c4a9f3707c7829439d78eba77bdbac926a247e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:32 +0000
Subject: [PATCH 20/26] fix: the bound of a Constant layer covers its value

---
 rust/jstprove_onnx/src/quantizer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 7db39f7..95d9d5e 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1793,7 +1793,14 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::Constant => Ok(1.0),
+        OpType::Constant => Ok(match layer.attributes.get("value") {
+            Some(AttrValue::Tensor(td)) => td
+                .as_f64_vec()
+                .iter()
+                .map(|v| v.abs())
+                .fold(1.0_f64, f64::max),
+            _ => 1.0,
+        }),
         OpType::HardSwish => {
             let m_in = get_input_bound(0);
             Ok(m_in)
-- 
2.43.0


From d56767aaec0c48e60a9fbb15d27bcbd627455d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:26 +0000
Subject: [PATCH 21/26] fix: weights that do not fit 64 bits after scaling are
 refused, not saturated

---
 rust/jstprove_onnx/src/quantizer.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 95d9d5e..304fbeb 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -157,12 +157,22 @@ fn quantize_layer_weights(layer: &mut LayerNode, alpha: i64) -> Result<()> {
         if let Some(input_name) = layer.inputs.get(input_pos) {
             if let Some(weight) = layer.weights.get_mut(input_name) {
                 if !weight.float_data.is_empty() {
-                    let factor = alpha.pow(scale_factor as u32);
-                    let scaled: Vec<i64> = weight
-                        .float_data
-                        .iter()
-                        .map(|v| (*v * factor as f64).round() as i64)
-                        .collect();
+                    let factor = alpha.checked_pow(scale_factor as u32).ok_or_else(|| {
+                        anyhow::anyhow!(
+                            "layer {}: scale alpha={alpha} to the power {scale_factor} overflows",
+                            layer.name
+                        )
+                    })?;
+                    let mut scaled: Vec<i64> = Vec::with_capacity(weight.float_data.len());
+                    for v in &weight.float_data {
+                        let x = *v * factor as f64;
+                        anyhow::ensure!(
+                            x.abs() < i64::MAX as f64,
+                            "layer {}: weight {v} scaled by {factor} does not fit a 64-bit integer",
+                            layer.name
+                        );
+                        scaled.push(x.round() as i64);
+                    }
                     weight.int_data = scaled;
                     weight.float_data.clear();
                 }
-- 
2.43.0


From 9cde3dd0fa8b83645135522192a4f7c1e3a5a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 22/26] fix: Concat of tensors whose estimated rank is zero no
 longer panics the quantizer

---
 rust/jstprove_onnx/src/quantizer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 304fbeb..afd2124 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -695,10 +695,13 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         (axis as usize).min(rank.saturating_sub(1))
                     };
                     let mut out = (*first).clone();
-                    out[ax] = in_shapes
-                        .iter()
-                        .map(|s| s.get(ax).copied().unwrap_or(0))
-                        .sum();
+                    // A rank-0 estimate (the batch axis is not tracked) has no axis to grow.
+                    if let Some(d) = out.get_mut(ax) {
+                        *d = in_shapes
+                            .iter()
+                            .map(|s| s.get(ax).copied().unwrap_or(0))
+                            .sum();
+                    }
                     out
                 } else {
                     input_shape.unwrap_or_default()
-- 
2.43.0


From c96108f87b3b1a81c9c90498e79d3c7064e37b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 23/26] fix: layer parameters refuse dilations, automatic
 padding, ceil mode and scaled Gemm instead of ignoring them

---
 rust/jstprove_onnx/src/layer_params.rs | 32 ++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index f0a9fd7..dcecc43 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -36,6 +36,16 @@ impl GemmParams {
             "Gemm {} has transA=1 which is not supported",
             layer.name
         );
+        for attr in ["alpha", "beta"] {
+            let v = layer.get_float_attr(attr).unwrap_or(1.0);
+            ensure!(
+                (v - 1.0).abs() < 1e-6,
+                "Gemm {} has {}={} which is not supported",
+                layer.name,
+                attr,
+                v
+            );
+        }
         let trans_b = layer
             .get_int_attr("transB")
             .map(|v| v != 0)
@@ -71,6 +81,19 @@ impl GemmParams {
     }
 }
 
+/// The window arithmetic below knows neither dilations nor automatic padding.
+fn ensure_plain_window(layer: &LayerNode) -> Result<()> {
+    let dilated = layer
+        .get_ints_attr("dilations")
+        .map(|d| d.iter().any(|&v| v != 1))
+        .unwrap_or(false);
+    ensure!(!dilated, "{}: dilations are not supported", layer.name);
+    match layer.get_string_attr("auto_pad") {
+        None | Some("") | Some("NOTSET") | Some("VALID") => Ok(()),
+        Some(mode) => anyhow::bail!("{}: auto_pad={mode} is not supported", layer.name),
+    }
+}
+
 pub struct ConvParams {
     pub input_name: String,
     pub weight_tensor_name: String,
@@ -142,6 +165,8 @@ impl ConvParams {
             input_ch
         );
 
+        ensure_plain_window(layer)?;
+
         let pads = layer.get_ints_attr("pads");
         let pad_values: [i64; 4] = [
             pads.and_then(|p| p.first().copied()).unwrap_or(0),
@@ -264,6 +289,13 @@ impl MaxPoolParams {
         let pool_h = kernel_shape[0] as usize;
         let pool_w = kernel_shape[1] as usize;
 
+        ensure_plain_window(layer)?;
+        ensure!(
+            layer.get_int_attr("ceil_mode").unwrap_or(0) == 0,
+            "MaxPool {}: ceil_mode is not supported",
+            layer.name
+        );
+
         let strides = layer.get_ints_attr("strides");
         let raw_stride_h = strides.and_then(|s| s.first().copied()).unwrap_or(1);
         let raw_stride_w = strides.and_then(|s| s.get(1).copied()).unwrap_or(1);
-- 
2.43.0


From 831369c64caa35c06e10a195e7b00cc1166a3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 24/26] fix: zero biases get a name of their own and the byte
 size of their element type

---
 rust/jstprove_onnx/src/compat.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index b7b1675..5c94f52 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -97,6 +97,22 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
 
     let graph = model.graph.as_mut().context("model has no graph")?;
 
+    let mut taken: HashSet<String> = HashSet::new();
+    for tensor in &graph.initializer {
+        taken.insert(tensor.name.clone().unwrap_or_default());
+    }
+    for value in &graph.input {
+        taken.insert(value.name.clone().unwrap_or_default());
+    }
+    for node in &graph.node {
+        for name in &node.input {
+            taken.insert(name.clone());
+        }
+        for name in &node.output {
+            taken.insert(name.clone());
+        }
+    }
+
     let mut new_initializers = Vec::new();
 
     for node in &mut graph.node {
@@ -126,11 +142,15 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
             .clone()
             .or_else(|| node.output.first().cloned())
             .unwrap_or_else(|| weight_name.clone());
-        let bias_name = format!("{node_id}_zero_bias");
+        let mut bias_name = format!("{node_id}_zero_bias");
+        while !taken.insert(bias_name.clone()) {
+            bias_name.push('_');
+        }
 
         let data_type = weight_init.and_then(|i| i.data_type).unwrap_or(1);
         let raw_data = match DataType::try_from(data_type) {
             Ok(DataType::Double) => vec![0u8; out_channels * 8],
+            Ok(DataType::Float16 | DataType::Bfloat16) => vec![0u8; out_channels * 2],
             _ => vec![0u8; out_channels * 4],
         };
 
-- 
2.43.0


From 79761ed1c7be3df0b982878223136c03e9badcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 25/26] fix: accumulation lengths use the inferred shape of
 every layer that shape inference accepts

---
 rust/jstprove_onnx/src/quantizer.rs       | 11 ++++++++++-
 rust/jstprove_onnx/src/shape_inference.rs |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index afd2124..6cd8605 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -5,6 +5,7 @@ use anyhow::Result;
 use super::graph::{LayerGraph, LayerNode, OpType};
 use super::ops;
 use super::parser::{AttrValue, TensorData};
+use super::shape_inference::{fold_constants, infer_layer_output_shape};
 
 pub const DEFAULT_SCALE_BASE: u64 = 2;
 pub const DEFAULT_SCALE_EXPONENT: u32 = 18;
@@ -447,8 +448,16 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
         }
     }
 
-    // Propagate shapes topologically.
+    // Propagate shapes topologically. The shape inference rules decide where they
+    // accept a layer; the estimates below are only for layers they refuse.
+    let mut constants: HashMap<String, TensorData> = HashMap::new();
     for layer in graph.iter_topo() {
+        if let Ok(inferred) = infer_layer_output_shape(layer, &shapes, &layer.weights, &constants) {
+            shapes.extend(inferred);
+            fold_constants(layer, &shapes, &layer.weights, &mut constants);
+            continue;
+        }
+
         let input_shape: Option<Vec<usize>> = layer
             .inputs
             .first()
diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 56150fc..a909b45 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -70,7 +70,7 @@ fn lookup_constant<'a>(
         .or_else(|| constant_tensors.get(name))
 }
 
-fn fold_constants(
+pub(super) fn fold_constants(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
     initializers: &HashMap<String, TensorData>,
@@ -711,7 +711,7 @@ fn ensure_explicit_padding(layer: &LayerNode) -> Result<()> {
     }
 }
 
-fn infer_layer_output_shape(
+pub(super) fn infer_layer_output_shape(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
     initializers: &HashMap<String, TensorData>,
-- 
2.43.0


From 2dc8e67a0ad81fbd40c23db118a970c43f4a65eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 26/26] fix: accumulation lengths count the batch axis that
 graph input shapes leave out

---
 rust/jstprove_onnx/src/quantizer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 6cd8605..816ad7d 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -426,9 +426,14 @@ fn broadcast_two(a: &[usize], b: &[usize]) -> Vec<usize> {
 fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
     let mut shapes: HashMap<String, Vec<usize>> = HashMap::new();
 
-    // Seed with model-level input shapes.
+    // Seed with model-level input shapes. They come without the batch axis (see
+    // LayerGraph::from_parsed), which the axes, permutations and ranks of the layers count.
     for (name, shape) in &graph.input_shapes {
-        shapes.insert(name.clone(), shape.clone());
+        let mut full = shape.clone();
+        if full.len() >= 2 {
+            full.insert(0, 1);
+        }
+        shapes.insert(name.clone(), full);
     }
 
     // Seed with all weight tensor shapes.
-- 
2.43.0

