%%include prelude.vc
%%include real.vc
%%include onnx_core.vc
%%fn rust/jstprove_onnx/src/graph.rs::LayerNode::get_float_attr
%%opt vf 1
ensures
    match r { Some(v) => self.attributes@.contains_key(name@) && self.attributes@[name@] == AttrValue::Float(v), None => !(self.attributes@.contains_key(name@) && self.attributes@[name@] is Float) },
%%item rust/jstprove_onnx/src/layer_params.rs::GemmParams
%%item rust/jstprove_onnx/src/layer_params.rs::ConvParams
%%item rust/jstprove_onnx/src/layer_params.rs::MaxPoolParams
%%item rust/jstprove_onnx/src/layer_params.rs::BatchNormParams
%%item rust/jstprove_onnx/src/layer_params.rs::AddSubParams
%%raw
pub open spec fn wdims(l: LayerNode) -> Seq<usize> { td_shape(l.weights@[l.inputs@[1]@]) }
pub open spec fn has_w(l: LayerNode) -> bool { l.inputs@.len() >= 2 && l.weights@.contains_key(l.inputs@[1]@) }
pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// entry `i` of a list attribute, or `d`
pub open spec fn at_or(l: LayerNode, n: Seq<char>, i: int, d: i64) -> int { match ints_attr(l, n) { Some(v) => if 0 <= i < v.len() { v[i] as int } else { d as int }, None => d as int } }
pub open spec fn all_are(l: LayerNode, n: Seq<char>, d: i64) -> bool { match ints_attr(l, n) { Some(v) => forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i] == d, None => true } }
pub open spec fn plain(l: LayerNode) -> bool { all_are(l, "dilations"@, 1) && (match str_attr(l, "auto_pad"@) { None => true, Some(s) => s == ""@ || s == "NOTSET"@ || s == "VALID"@ }) }
pub open spec fn gemm_ok(l: LayerNode) -> bool { has_w(l) && int_or(l, "transA"@, 0) == 0 && fone(l, "alpha"@) && fone(l, "beta"@) && wdims(l).len() == 2 }
pub open spec fn fone(l: LayerNode, n: Seq<char>) -> bool { l.attributes@.contains_key(n) ==> match l.attributes@[n] { AttrValue::Float(f) => vr_abs(f.r() - 1real) < 1real / 1000000real, _ => true } }
pub open spec fn conv_pads_ok(l: LayerNode) -> bool { at_or(l, "pads"@, 0, 0) >= 0 && at_or(l, "pads"@, 1, 0) >= 0 && at_or(l, "pads"@, 2, 0) >= 0 && at_or(l, "pads"@, 3, 0) >= 0 }
pub open spec fn strides_ok(l: LayerNode) -> bool { at_or(l, "strides"@, 0, 1) > 0 && at_or(l, "strides"@, 1, 1) > 0 }
pub open spec fn conv_ok(l: LayerNode, ch: int, h: int, w: int) -> bool {
    &&& has_w(l) && wdims(l).len() == 4 && int_or(l, "group"@, 1) == 1 && plain(l) && ch == wdims(l)[1] && conv_pads_ok(l) && strides_ok(l)
    &&& h + at_or(l, "pads"@, 0, 0) + at_or(l, "pads"@, 2, 0) >= wdims(l)[2] && w + at_or(l, "pads"@, 1, 0) + at_or(l, "pads"@, 3, 0) >= wdims(l)[3]
}
pub proof fn lemma_sizes() ensures
    forall|a: int, b: int| 0 <= a <= 0x4000_0000 && 0 <= b <= 0x4000_0000 ==> 0 <= #[trigger] (a * b) <= 0x1000_0000_0000_0000,
    forall|a: int, b: int| 0 <= a <= 0xC000_0001 && 0 <= b <= 0xC000_0001 ==> 0 <= #[trigger] (a * b) <= usize::MAX,
    forall|a: int, s: int| 0 <= a && 1 <= s ==> 0 <= #[trigger] (a / s) <= a,
{
    assert forall|a: int, b: int| 0 <= a <= 0x4000_0000 && 0 <= b <= 0x4000_0000 implies 0 <= #[trigger] (a * b) <= 0x1000_0000_0000_0000 by { lemma_mul30(a, b); }
    assert forall|a: int, b: int| 0 <= a <= 0xC000_0001 && 0 <= b <= 0xC000_0001 implies 0 <= #[trigger] (a * b) <= usize::MAX by { assert(0 <= a * b <= 0xC000_0001 * 0xC000_0001) by(nonlinear_arith) requires 0 <= a <= 0xC000_0001, 0 <= b <= 0xC000_0001; }
    assert forall|a: int, s: int| 0 <= a && 1 <= s implies 0 <= #[trigger] (a / s) <= a by { assert(0 <= a / s <= a) by(nonlinear_arith) requires 0 <= a, 1 <= s; }
}
pub open spec fn win1(x: int, p: int, k: int, s: int) -> int { (x + p - k) / s + 1 }
%%fn rust/jstprove_onnx/src/layer_params.rs::ensure_plain_window
ensures (r is Ok) == plain(*layer),
%%post A0
if fndA0 { assert(ixA0 - 1 < srcA0@.len()); assert(srcA0@[ixA0 - 1] != 1); assert(ints_attr(*layer, "dilations"@)->Some_0 =~= srcA0@); assert(!all_are(*layer, "dilations"@, 1)); }
%%fn rust/jstprove_onnx/src/layer_params.rs::GemmParams::from_layer
%%opt vf 1
ensures (r is Ok) == gemm_ok(*layer),
    r is Ok ==> ({ let p = r->Ok_0; let d = wdims(*layer); let t = int_or(*layer, "transB"@, 0) != 0;
        p.input_name@ == layer.inputs@[0]@ && p.weight_tensor_name@ == layer.inputs@[1]@ && ostr(p.bias_tensor_name) == inp(*layer, 2) && p.trans_b == t && p.w_rows == d[0] && p.w_cols == d[1] && p.k_dim == (if t { d[1] } else { d[0] }) && p.n_dim == (if t { d[0] } else { d[1] }) }),
%%gpre L0
let ghost n0 = srcL0@;
%%pre L0
assert(n0.len() == 2 && n0[0]@ == "alpha"@ && n0[1]@ == "beta"@);
%%loop L0
forall|j: int| #![trigger n0[j]] 0 <= j < ixL0 ==> fone(*layer, n0[j]@),
%%body L0
assert(hint(n0[ixL0 - 1]@ == attr@));
%%post L0
assert(fone(*layer, n0[0]@) && fone(*layer, n0[1]@));
%%entry
assert(forall|x: real| #[trigger] vr_abs(x) >= 0real);
%%raw
%%fn rust/jstprove_onnx/src/layer_params.rs::ConvParams::from_layer
requires in_h <= 0x4000_0000, in_w <= 0x4000_0000, ismall(ints_attr(*layer, "pads"@)), ismall(ints_attr(*layer, "strides"@)),
    has_w(*layer) ==> small(wdims(*layer)), int_or(*layer, "group"@, 1) >= 0,
ensures
    r is Ok ==> conv_ok(*layer, input_ch as int, in_h as int, in_w as int) && ({ let p = r->Ok_0; let d = wdims(*layer); let l = *layer;
        &&& p.input_name@ == l.inputs@[0]@ && p.weight_tensor_name@ == l.inputs@[1]@ && ostr(p.bias_tensor_name) == inp(l, 2)
        &&& p.c_out == d[0] && p.c_in == d[1] && p.kh == d[2] && p.kw == d[3]
        &&& p.pad_top == at_or(l, "pads"@, 0, 0) && p.pad_left == at_or(l, "pads"@, 1, 0) && p.pad_bottom == at_or(l, "pads"@, 2, 0) && p.pad_right == at_or(l, "pads"@, 3, 0)
        &&& p.stride_h == at_or(l, "strides"@, 0, 1) && p.stride_w == at_or(l, "strides"@, 1, 1)
        &&& p.out_h == win1(in_h as int, p.pad_top + p.pad_bottom, p.kh as int, p.stride_h as int) && p.out_w == win1(in_w as int, p.pad_left + p.pad_right, p.kw as int, p.stride_w as int)
        &&& p.patch_size == p.c_in * p.kh * p.kw && p.num_patches == p.out_h * p.out_w }),
    conv_ok(*layer, input_ch as int, in_h as int, in_w as int) && wdims(*layer)[1] * wdims(*layer)[2] * wdims(*layer)[3] <= usize::MAX ==> r is Ok,
%%entry
lemma_sizes();
%%post A0
assert(srcA0@.len() == 4);
assert(srcA0@[0] == at_or(*layer, "pads"@, 0, 0)); assert(srcA0@[1] == at_or(*layer, "pads"@, 1, 0)); assert(srcA0@[2] == at_or(*layer, "pads"@, 2, 0)); assert(srcA0@[3] == at_or(*layer, "pads"@, 3, 0));
if fndA0 { assert(srcA0@[ixA0 - 1] < 0); }
%%raw
pub open spec fn pool_ok(l: LayerNode, h: int, w: int) -> bool {
    &&& l.inputs@.len() >= 1 && ints_attr(l, "kernel_shape"@) is Some && ints_attr(l, "kernel_shape"@)->Some_0.len() == 2 && at_or(l, "kernel_shape"@, 0, 0) > 0 && at_or(l, "kernel_shape"@, 1, 0) > 0
    &&& plain(l) && int_or(l, "ceil_mode"@, 0) == 0 && strides_ok(l) && all_are(l, "pads"@, 0) && h >= at_or(l, "kernel_shape"@, 0, 0) && w >= at_or(l, "kernel_shape"@, 1, 0)
}
%%fn rust/jstprove_onnx/src/layer_params.rs::MaxPoolParams::from_layer
requires in_h <= 0x4000_0000, in_w <= 0x4000_0000,
ensures (r is Ok) == pool_ok(*layer, in_h as int, in_w as int),
    r is Ok ==> ({ let p = r->Ok_0; let l = *layer;
        &&& p.input_name@ == l.inputs@[0]@ && p.pool_h == at_or(l, "kernel_shape"@, 0, 0) && p.pool_w == at_or(l, "kernel_shape"@, 1, 0)
        &&& p.stride_h == at_or(l, "strides"@, 0, 1) && p.stride_w == at_or(l, "strides"@, 1, 1)
        &&& p.pool_oh == win1(in_h as int, 0, p.pool_h as int, p.stride_h as int) && p.pool_ow == win1(in_w as int, 0, p.pool_w as int, p.stride_w as int) && p.window_size == p.pool_h * p.pool_w }),
%%entry
lemma_sizes();
%%post A0
if fndA0 { assert(ixA0 - 1 < srcA0@.len()); assert(srcA0@[ixA0 - 1] != 0); assert(ints_attr(*layer, "pads"@)->Some_0 =~= srcA0@); assert(!all_are(*layer, "pads"@, 0)); }
%%fn rust/jstprove_onnx/src/layer_params.rs::BatchNormParams::from_layer
ensures (r is Ok) == (layer.inputs@.len() >= 3),
    r is Ok ==> r->Ok_0.input_name@ == layer.inputs@[0]@ && r->Ok_0.mul_tensor_name@ == layer.inputs@[1]@ && r->Ok_0.add_tensor_name@ == layer.inputs@[2]@,
%%fn rust/jstprove_onnx/src/layer_params.rs::AddSubParams::from_layer
ensures (r is Ok) == (layer.inputs@.len() >= 2),
    r is Ok ==> r->Ok_0.input_a_name@ == layer.inputs@[0]@ && r->Ok_0.input_b_name@ == layer.inputs@[1]@,
