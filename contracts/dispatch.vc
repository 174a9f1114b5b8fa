%%include onnx_base.vc
%%type HashMap::new() => SMap::new()
%%raw
// ---- which rule each operator follows -------------------------------------------------------------
impl<V> SMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { SMap { m: HashMap::new() } }
}
impl Clone for TensorData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { TensorData { name: self.name.clone(), dims: self.dims.clone(), data_type: self.data_type, float_data: self.float_data.clone(), int_data: self.int_data.clone() } }
}
pub trait VxOwn : Sized { fn vx_own(&self) -> (r: Self) ensures r == *self; }
impl VxOwn for (String, Vec<usize>) { #[verifier::external_body] fn vx_own(&self) -> (r: Self) { self.clone() } }
/// the values of a map, in some order, each once
#[verifier::external_body]
pub fn vx_values<V>(m: &SMap<V>) -> (r: Vec<&V>) ensures values_of(m@, r@) { m.m.values().collect() }
pub open spec fn values_by<V>(m: Map<Seq<char>, V>, ks: Seq<Seq<char>>, r: Seq<&V>) -> bool {
    &&& ks.len() == r.len() && (forall|i: int| #![trigger ks[i]] #![trigger r[i]] 0 <= i < ks.len() ==> m.contains_key(ks[i]) && *r[i] == m[ks[i]])
    &&& forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k
}
pub open spec fn values_of<V>(m: Map<Seq<char>, V>, r: Seq<&V>) -> bool { exists|ks: Seq<Seq<char>>| #[trigger] values_by(m, ks, r) }
%%item rust/jstprove_onnx/src/graph.rs::LayerGraph
%%item rust/jstprove_onnx/src/parser.rs::ParsedModel
%%item rust/jstprove_onnx/src/parser.rs::ParsedNode
%%item rust/jstprove_onnx/src/parser.rs::IoSpec
%%raw
pub enum Rule { None, Pass, PassIdx, Conv, Gemm, BroadcastBinary, Maxpool, Reshape, Flatten, Squeeze, Unsqueeze, Tile, Gather, Resize, Gridsample, Transpose, Concat, Slice, Topk, Expand, ShapeOp, Reduce, Matmul, Pad, Split, Where, ConvTranspose, GlobalAveragepool, ConstantOfShape, Range }
/// the shape rule of each operator
pub open spec fn rule_of(o: OpType) -> Rule {
    match o {
        OpType::Conv => Rule::Conv,
        OpType::Gemm => Rule::Gemm,
        OpType::Max | OpType::Min | OpType::Add | OpType::Sub | OpType::Div | OpType::Mul | OpType::Pow | OpType::And | OpType::Equal | OpType::Greater | OpType::Less => Rule::BroadcastBinary,
        OpType::MaxPool | OpType::AveragePool => Rule::Maxpool,
        OpType::Reshape => Rule::Reshape,
        OpType::Flatten => Rule::Flatten,
        OpType::Squeeze => Rule::Squeeze,
        OpType::Unsqueeze => Rule::Unsqueeze,
        OpType::Tile => Rule::Tile,
        OpType::Gather => Rule::Gather,
        OpType::Resize => Rule::Resize,
        OpType::GridSample => Rule::Gridsample,
        OpType::Transpose => Rule::Transpose,
        OpType::Concat => Rule::Concat,
        OpType::Slice => Rule::Slice,
        OpType::TopK => Rule::Topk,
        OpType::Expand => Rule::Expand,
        OpType::Shape => Rule::ShapeOp,
        OpType::ReduceMean | OpType::ReduceSum | OpType::ReduceMax => Rule::Reduce,
        OpType::MatMul => Rule::Matmul,
        OpType::Pad => Rule::Pad,
        OpType::Split => Rule::Split,
        OpType::Where => Rule::Where,
        OpType::ConvTranspose => Rule::ConvTranspose,
        OpType::GlobalAveragePool => Rule::GlobalAveragepool,
        OpType::ConstantOfShape => Rule::ConstantOfShape,
        OpType::Range => Rule::Range,
        OpType::Constant => Rule::None, OpType::GatherElements => Rule::PassIdx,
        OpType::BatchNormalization | OpType::Relu | OpType::Clip | OpType::Cast | OpType::Exp | OpType::Softmax | OpType::Sigmoid | OpType::Gelu | OpType::LayerNormalization | OpType::Log | OpType::Sqrt | OpType::Tanh | OpType::Erf | OpType::LeakyRelu | OpType::Identity | OpType::Neg | OpType::HardSwish | OpType::InstanceNormalization | OpType::GroupNormalization | OpType::Not | OpType::Sin | OpType::Cos | OpType::ScatterND => Rule::Pass,
    }
}
/// "r is what the rule's own contract (S01-S07) says about this layer": the contract is discharged in
/// the rule's unit, here it is only a name
pub uninterp spec fn by_rule(k: Rule, l: LayerNode, x: Option<Seq<usize>>, sh: Map<Seq<char>, Vec<usize>>, ini: Map<Seq<char>, TensorData>, ct: Map<Seq<char>, TensorData>, r: Result<Vec<(String, Vec<usize>)>, VErr>) -> bool;
pub uninterp spec fn no_x() -> Option<Seq<usize>>;
pub uninterp spec fn no_sh() -> Map<Seq<char>, Vec<usize>>;
pub uninterp spec fn no_td() -> Map<Seq<char>, TensorData>;
pub enum Use { S, X, XC, C, SC, N }
pub open spec fn use_of(k: Rule) -> Use {
    match k {
        Rule::Conv => Use::S,
        Rule::Gemm => Use::S,
        Rule::BroadcastBinary => Use::S,
        Rule::Maxpool => Use::X,
        Rule::Reshape => Use::XC,
        Rule::Flatten => Use::X,
        Rule::Squeeze => Use::XC,
        Rule::Unsqueeze => Use::XC,
        Rule::Tile => Use::XC,
        Rule::Gather => Use::SC,
        Rule::Resize => Use::XC,
        Rule::Gridsample => Use::S,
        Rule::Transpose => Use::S,
        Rule::Concat => Use::S,
        Rule::Slice => Use::XC,
        Rule::Topk => Use::XC,
        Rule::Expand => Use::SC,
        Rule::ShapeOp => Use::X,
        Rule::Reduce => Use::XC,
        Rule::Matmul => Use::S,
        Rule::Pad => Use::XC,
        Rule::Split => Use::XC,
        Rule::Where => Use::S,
        Rule::ConvTranspose => Use::S,
        Rule::GlobalAveragepool => Use::X,
        Rule::ConstantOfShape => Use::C,
        Rule::Range => Use::C,
        _ => Use::N,
    }
}
/// every output name of the layer, in order (a range has one output)
pub open spec fn named(l: LayerNode, r: Seq<(String, Vec<usize>)>) -> bool {
    if l.op_type == OpType::Range { r.len() == 1 && l.outputs@.len() >= 1 && r[0].0@ == l.outputs@[0]@ }
    else { r.len() == l.outputs@.len() && forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> r[j].0@ == l.outputs@[j]@ }
}
pub open spec fn pass_ok(l: LayerNode, x: Option<Seq<usize>>, r: Result<Vec<(String, Vec<usize>)>, VErr>) -> bool {
    (r is Ok) == (x is Some) && (r is Ok ==> outs_ok(r->Ok_0@, l.outputs@, x->Some_0))
}
/// result of inferring one layer in a state (shapes so far, constants so far)
pub open spec fn layer_res(l: LayerNode, sh: Map<Seq<char>, Vec<usize>>, ini: Map<Seq<char>, TensorData>, ct: Map<Seq<char>, TensorData>, r: Result<Vec<(String, Vec<usize>)>, VErr>) -> bool {
    let x = msh(l, sh, 0); let k = rule_of(l.op_type);
    match k {
        Rule::None => r is Ok && r->Ok_0@.len() == 0,
        Rule::Pass => if l.op_type == OpType::LayerNormalization && l.outputs@.len() > 1 { r is Err } else { pass_ok(l, x, r) },
        Rule::PassIdx => pass_ok(l, msh(l, sh, 1), r),
        _ => (r is Ok ==> named(l, r->Ok_0@)) && match use_of(k) {
            Use::S => by_rule(k, l, no_x(), sh, no_td(), no_td(), r),
            Use::X => by_rule(k, l, x, no_sh(), no_td(), no_td(), r),
            Use::XC => by_rule(k, l, x, no_sh(), ini, ct, r),
            Use::C => by_rule(k, l, no_x(), no_sh(), ini, ct, r),
            _ => by_rule(k, l, no_x(), sh, ini, ct, r),
        },
    }
}
pub open spec fn msh(l: LayerNode, sh: Map<Seq<char>, Vec<usize>>, k: int) -> Option<Seq<usize>> {
    if 0 <= k < l.inputs@.len() && sh.contains_key(l.inputs@[k]@) { Some(sh[l.inputs@[k]@]@) } else { None }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_conv
%%opt stub its-own-unit
ensures
    by_rule(Rule::Conv, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_gemm
%%opt stub its-own-unit
ensures
    by_rule(Rule::Gemm, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_broadcast_binary
%%opt stub its-own-unit
ensures
    by_rule(Rule::BroadcastBinary, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_maxpool
%%opt stub its-own-unit
ensures
    by_rule(Rule::Maxpool, *layer, oshape(input_shape), no_sh(), no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_reshape
%%opt stub its-own-unit
ensures
    by_rule(Rule::Reshape, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_flatten
%%opt stub its-own-unit
ensures
    by_rule(Rule::Flatten, *layer, oshape(input_shape), no_sh(), no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_squeeze
%%opt stub its-own-unit
ensures
    by_rule(Rule::Squeeze, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_unsqueeze
%%opt stub its-own-unit
ensures
    by_rule(Rule::Unsqueeze, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_tile
%%opt stub its-own-unit
ensures
    by_rule(Rule::Tile, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_gather
%%opt stub its-own-unit
ensures
    by_rule(Rule::Gather, *layer, no_x(), shapes@, initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_resize
%%opt stub its-own-unit
ensures
    by_rule(Rule::Resize, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_gridsample
%%opt stub its-own-unit
ensures
    by_rule(Rule::Gridsample, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_transpose
%%opt stub its-own-unit
ensures
    by_rule(Rule::Transpose, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_concat
%%opt stub its-own-unit
ensures
    by_rule(Rule::Concat, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_slice
%%opt stub its-own-unit
ensures
    by_rule(Rule::Slice, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_topk
%%opt stub its-own-unit
ensures
    by_rule(Rule::Topk, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_expand
%%opt stub its-own-unit
ensures
    by_rule(Rule::Expand, *layer, no_x(), shapes@, initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_shape_op
%%opt stub its-own-unit
ensures
    by_rule(Rule::ShapeOp, *layer, oshape(input_shape), no_sh(), no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_reduce
%%opt stub its-own-unit
ensures
    by_rule(Rule::Reduce, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_matmul
%%opt stub its-own-unit
ensures
    by_rule(Rule::Matmul, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_pad
%%opt stub its-own-unit
ensures
    by_rule(Rule::Pad, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_split
%%opt stub its-own-unit
ensures
    by_rule(Rule::Split, *layer, oshape(input_shape), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_where
%%opt stub its-own-unit
ensures
    by_rule(Rule::Where, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_conv_transpose
%%opt stub its-own-unit
ensures
    by_rule(Rule::ConvTranspose, *layer, no_x(), shapes@, no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_global_averagepool
%%opt stub its-own-unit
ensures
    by_rule(Rule::GlobalAveragepool, *layer, oshape(input_shape), no_sh(), no_td(), no_td(), r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_constant_of_shape
%%opt stub its-own-unit
ensures
    by_rule(Rule::ConstantOfShape, *layer, no_x(), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == layer.outputs@.len() && forall|j: int| #![trigger r->Ok_0@[j]] 0 <= j < layer.outputs@.len() ==> r->Ok_0@[j].0@ == layer.outputs@[j]@,
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_range
%%opt stub its-own-unit
ensures
    by_rule(Rule::Range, *layer, no_x(), no_sh(), initializers@, constant_tensors@, r),
    r is Ok ==> r->Ok_0@.len() == 1 && layer.outputs@.len() >= 1 && r->Ok_0@[0].0@ == layer.outputs@[0]@,
%%include fn_basic.vc
%%fn rust/jstprove_onnx/src/shape_inference.rs::passthrough_shape
ensures pass_ok(*layer, oshape(input_shape), r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::passthrough_shape_with
ensures pass_ok(*layer, oshape(shape), r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_layer_output_shape
ensures layer_res(*layer, shapes@, initializers@, constant_tensors@, r),
%%raw
// ---- folding dispatch ---------------------------------------------------------------------------------
pub uninterp spec fn by_fold(o: OpType, l: LayerNode, sh: Map<Seq<char>, Vec<usize>>, ini: Map<Seq<char>, TensorData>, ct: Map<Seq<char>, TensorData>, r: Option<TensorData>) -> bool;
pub open spec fn folds_op(o: OpType) -> bool {
    o == OpType::Gather || o == OpType::Unsqueeze || o == OpType::Squeeze || o == OpType::Concat || o == OpType::Slice || o == OpType::Cast || o == OpType::Reshape || o == OpType::GatherElements
}
pub open spec fn fold_res(l: LayerNode, sh: Map<Seq<char>, Vec<usize>>, ini: Map<Seq<char>, TensorData>, ct: Map<Seq<char>, TensorData>, r: Option<TensorData>) -> bool {
    if l.op_type == OpType::Shape { by_fold(OpType::Shape, l, sh, no_td(), no_td(), r) }
    else if folds_op(l.op_type) { by_fold(l.op_type, l, no_sh(), ini, ct, r) }
    else { r is None }
}
pub open spec fn renamed(t: TensorData, n: Seq<char>, u: TensorData) -> bool {
    u.name@ == n && u.dims == t.dims && u.data_type == t.data_type && u.float_data == t.float_data && u.int_data == t.int_data
}
/// the constants after the first k outputs got the folded tensor
pub open spec fn put_all(l: LayerNode, t: TensorData, k: int, a: Map<Seq<char>, TensorData>, b: Map<Seq<char>, TensorData>) -> bool {
    forall|s: Seq<char>| #![trigger b.contains_key(s)] if outn(l, s, k) { b.contains_key(s) && renamed(t, s, b[s]) } else { b.contains_key(s) == a.contains_key(s) && (a.contains_key(s) ==> b[s] == a[s]) }
}
pub open spec fn outn(l: LayerNode, s: Seq<char>, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] l.outputs@[j]@ == s }
pub proof fn lemma_put(l: LayerNode, t: TensorData, u: TensorData, k: int, a: Map<Seq<char>, TensorData>, b: Map<Seq<char>, TensorData>)
    requires put_all(l, t, k, a, b), 0 <= k < l.outputs@.len(), renamed(t, l.outputs@[k]@, u)
    ensures put_all(l, t, k + 1, a, b.insert(l.outputs@[k]@, u))
{
    let c = b.insert(l.outputs@[k]@, u);
    assert forall|s: Seq<char>| #![trigger c.contains_key(s)] if outn(l, s, k + 1) { c.contains_key(s) && renamed(t, s, c[s]) } else { c.contains_key(s) == a.contains_key(s) && (a.contains_key(s) ==> c[s] == a[s]) } by {
        let z = b.contains_key(s);
        if s == l.outputs@[k]@ { assert(outn(l, s, k + 1)); } else {
            if outn(l, s, k + 1) { let q = choose|q: int| 0 <= q < k + 1 && #[trigger] l.outputs@[q]@ == s; assert(q != k); assert(0 <= q < k && l.outputs@[q]@ == s); }
            if outn(l, s, k) { let q = choose|q: int| 0 <= q < k && #[trigger] l.outputs@[q]@ == s; assert(0 <= q < k + 1 && l.outputs@[q]@ == s); }
        }
    }
}
pub open spec fn fold_step(l: LayerNode, sh: Map<Seq<char>, Vec<usize>>, ini: Map<Seq<char>, TensorData>, a: Map<Seq<char>, TensorData>, b: Map<Seq<char>, TensorData>) -> bool {
    (fold_res(l, sh, ini, a, None) && b == a) || exists|t: TensorData| #[trigger] fold_res(l, sh, ini, a, Some(t)) && put_all(l, t, l.outputs@.len() as int, a, b)
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_shape
%%opt stub S08
ensures by_fold(OpType::Shape, *layer, shapes@, no_td(), no_td(), r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_gather
%%opt stub S08
ensures by_fold(OpType::Gather, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_unsqueeze
%%opt stub S08
ensures by_fold(OpType::Unsqueeze, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_squeeze
%%opt stub S08
ensures by_fold(OpType::Squeeze, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_concat
%%opt stub S08
ensures by_fold(OpType::Concat, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_slice
%%opt stub S08
ensures by_fold(OpType::Slice, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_cast
%%opt stub S08
ensures by_fold(OpType::Cast, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_reshape
%%opt stub S08
ensures by_fold(OpType::Reshape, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_gather_elements
%%opt stub S08
ensures by_fold(OpType::GatherElements, *layer, no_sh(), initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_constants
ensures fold_step(*layer, shapes@, initializers@, old(constant_tensors)@, final(constant_tensors)@),
%%pre L0
assert(hint(fold_res(*layer, shapes@, initializers@, old(constant_tensors)@, Some(td))));
%%loop L0
put_all(*layer, td, ixL0 as int, old(constant_tensors)@, constant_tensors@),
%%gbody L0
let ghost c0 = constant_tensors@;
%%end L0
lemma_put(*layer, td, constant_tensors@[layer.outputs@[ixL0 - 1]@], ixL0 - 1, old(constant_tensors)@, c0);
assert(constant_tensors@ =~= c0.insert(layer.outputs@[ixL0 - 1]@, constant_tensors@[layer.outputs@[ixL0 - 1]@]));
%%fn rust/jstprove_onnx/src/graph.rs::LayerGraph::iter_topo
%%opt collect_tail Vec<&LayerNode>
requires order_in(*self),
ensures r@.len() == self.topo_order@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i] == self.layers@[self.topo_order@[i] as int],
%%raw
pub open spec fn order_in(g: LayerGraph) -> bool { forall|i: int| #![trigger g.topo_order@[i]] 0 <= i < g.topo_order@.len() ==> g.topo_order@[i] < g.layers@.len() }
// ---- the whole pass -------------------------------------------------------------------------------------
pub type Shp = Map<Seq<char>, Vec<usize>>;
pub type Cst = Map<Seq<char>, TensorData>;
/// extents as declared by the model, unknown ones counted as one
pub open spec fn dext(s: Seq<i64>) -> Seq<usize> { Seq::new(s.len(), |i: int| if s[i] < 0 { 1usize } else { s[i] as usize }) }
pub open spec fn has(m: Shp, k: Seq<char>, v: Seq<usize>) -> bool { m.contains_key(k) && m[k]@ =~= v }
/// declared shape of tensor s: a model output (the last one named s) if it lists extents, else a model
/// input, else the initializer
pub open spec fn io_ext(v: Seq<IoSpec>, s: Seq<char>, k: int, skip_empty: bool) -> Option<Seq<usize>> decreases k {
    if k <= 0 { None } else if v[k - 1].name@ == s && !(skip_empty && v[k - 1].shape@.len() == 0) { Some(dext(v[k - 1].shape@)) } else { io_ext(v, s, k - 1, skip_empty) }
}
pub open spec fn decl(m: ParsedModel, s: Seq<char>, ki: int, ko: int) -> Option<Seq<usize>> {
    match io_ext(m.outputs@, s, ko, true) { Some(x) => Some(x), None => match io_ext(m.inputs@, s, ki, false) { Some(x) => Some(x),
        None => if m.initializers@.contains_key(s) { Some(td_shape(m.initializers@[s])) } else { None } } }
}
pub open spec fn opt_has(m: Shp, s: Seq<char>, v: Option<Seq<usize>>) -> bool { match v { Some(x) => has(m, s, x), None => !m.contains_key(s) } }
pub open spec fn declared(sh: Shp, m: ParsedModel, ki: int, ko: int) -> bool { forall|s: Seq<char>| #![trigger sh.contains_key(s)] opt_has(sh, s, decl(m, s, ki, ko)) }
pub open spec fn kconst(n: ParsedNode) -> Option<TensorData> {
    if n.op_type@ == "Constant"@ && n.attributes@.contains_key("value"@) { match n.attributes@["value"@] { AttrValue::Tensor(t) => Some(t), _ => None } } else { None }
}
pub open spec fn kout(n: ParsedNode, s: Seq<char>) -> bool { n.outputs@.len() > 0 && n.outputs@[0]@ == s }
/// tensor of the last Constant node among the first k with output s
pub open spec fn kval(ns: Seq<ParsedNode>, s: Seq<char>, k: int) -> Option<TensorData> decreases k {
    if k <= 0 { None } else if kconst(ns[k - 1]) is Some && kout(ns[k - 1], s) { kconst(ns[k - 1]) } else { kval(ns, s, k - 1) }
}
pub open spec fn cst_has(m: Cst, s: Seq<char>, v: Option<TensorData>) -> bool { match v { Some(t) => m.contains_key(s) && m[s] == t, None => !m.contains_key(s) } }
pub open spec fn start(m: ParsedModel, sh: Shp, ct: Cst, k: int) -> bool {
    (forall|s: Seq<char>| #![trigger sh.contains_key(s)] #![trigger kval(m.nodes@, s, k)] opt_has(sh, s, match kval(m.nodes@, s, k) { Some(t) => Some(td_shape(t)), None => decl(m, s, m.inputs@.len() as int, m.outputs@.len() as int) }))
    && (forall|s: Seq<char>| #![trigger ct.contains_key(s)] #![trigger kval(m.nodes@, s, k)] cst_has(ct, s, kval(m.nodes@, s, k)))
}
/// shapes after recording the first k results
pub open spec fn put(sh: Shp, r: Seq<(String, Vec<usize>)>, k: int) -> Shp decreases k { if k <= 0 { sh } else { put(sh, r, k - 1).insert(r[k - 1].0@, r[k - 1].1) } }
pub open spec fn step(l: LayerNode, ini: Cst, a: Shp, c: Cst, r: Vec<(String, Vec<usize>)>, b: Shp, d: Cst) -> bool {
    layer_res(l, a, ini, c, Ok(r)) && b == put(a, r@, r@.len() as int) && fold_step(l, b, ini, c, d)
}
pub open spec fn st_ok(m: ParsedModel, g: LayerGraph, t: Seq<(Shp, Cst)>, i: int, r: Vec<(String, Vec<usize>)>) -> bool {
    step(g.layers@[g.topo_order@[i] as int], m.initializers@, t[i].0, t[i].1, r, t[i + 1].0, t[i + 1].1)
}
pub open spec fn at_step(m: ParsedModel, g: LayerGraph, t: Seq<(Shp, Cst)>, i: int) -> bool { exists|r: Vec<(String, Vec<usize>)>| #[trigger] st_ok(m, g, t, i, r) }
/// t: the states before and after every layer, taken in the graph's order
pub open spec fn trace(m: ParsedModel, g: LayerGraph, t: Seq<(Shp, Cst)>) -> bool {
    t.len() >= 1 && start(m, t[0].0, t[0].1, m.nodes@.len() as int) && forall|i: int| #![trigger at_step(m, g, t, i)] 0 <= i < t.len() - 1 ==> at_step(m, g, t, i)
}
pub open spec fn failed(m: ParsedModel, g: LayerGraph, t: Seq<(Shp, Cst)>) -> bool {
    t.len() <= g.topo_order@.len() && exists|e: Result<Vec<(String, Vec<usize>)>, VErr>| #[trigger] layer_res(g.layers@[g.topo_order@[t.len() - 1] as int], t.last().0, m.initializers@, t.last().1, e) && e is Err
}
%%raw
pub proof fn lemma_trace(m: ParsedModel, g: LayerGraph, t: Seq<(Shp, Cst)>, b: Shp, d: Cst, r: Vec<(String, Vec<usize>)>)
    requires trace(m, g, t), step(g.layers@[g.topo_order@[t.len() - 1] as int], m.initializers@, t.last().0, t.last().1, r, b, d)
    ensures trace(m, g, t.push((b, d)))
{
    let u = t.push((b, d));
    assert forall|i: int| #![trigger at_step(m, g, u, i)] 0 <= i < u.len() - 1 implies at_step(m, g, u, i) by {
        if i < t.len() - 1 { assert(at_step(m, g, t, i)); let q = choose|q: Vec<(String, Vec<usize>)>| #[trigger] st_ok(m, g, t, i, q); assert(st_ok(m, g, u, i, q)); }
        else { assert(st_ok(m, g, u, i, r)); }
    }
}
/// every output of every layer visited so far is recorded
pub open spec fn all_named(g: LayerGraph, sh: Shp, k: int) -> bool { forall|i: int| #![trigger g.topo_order@[i]] 0 <= i < k ==> outs_in(g.layers@[g.topo_order@[i] as int], sh) }
pub open spec fn outs_in(l: LayerNode, sh: Shp) -> bool {
    l.op_type == OpType::Constant || forall|j: int| #![trigger l.outputs@[j]] 0 <= j < (if l.op_type == OpType::Range { 1int } else { l.outputs@.len() as int }) ==> sh.contains_key(l.outputs@[j]@)
}
pub proof fn lemma_put_in(sh: Shp, r: Seq<(String, Vec<usize>)>, k: int) requires 0 <= k <= r.len()
    ensures forall|s: Seq<char>| #![trigger put(sh, r, k).contains_key(s)] #![trigger sh.contains_key(s)] sh.contains_key(s) ==> put(sh, r, k).contains_key(s),
        forall|j: int| #![trigger r[j]] 0 <= j < k ==> put(sh, r, k).contains_key(r[j].0@) decreases k
{ if k > 0 { lemma_put_in(sh, r, k - 1);
    assert forall|s: Seq<char>| #![trigger put(sh, r, k).contains_key(s)] #![trigger sh.contains_key(s)] sh.contains_key(s) implies put(sh, r, k).contains_key(s) by { assert(put(sh, r, k - 1).contains_key(s)); }
    assert forall|j: int| #![trigger r[j]] 0 <= j < k implies put(sh, r, k).contains_key(r[j].0@) by { if j < k - 1 { assert(put(sh, r, k - 1).contains_key(r[j].0@)); } } } }
pub proof fn lemma_named(g: LayerGraph, a: Shp, k: int, l: LayerNode, r: Vec<(String, Vec<usize>)>, ini: Cst, c: Cst)
    requires all_named(g, a, k), 0 <= k < g.topo_order@.len(), l == g.layers@[g.topo_order@[k] as int], layer_res(l, a, ini, c, Ok(r)),
    ensures all_named(g, put(a, r@, r@.len() as int), k + 1)
{
    let b = put(a, r@, r@.len() as int);
    lemma_put_in(a, r@, r@.len() as int);
    assert forall|i: int| #![trigger g.topo_order@[i]] 0 <= i < k + 1 implies outs_in(g.layers@[g.topo_order@[i] as int], b) by {
        let q = g.layers@[g.topo_order@[i] as int];
        if i < k { assert(outs_in(q, a)); }
        else if q.op_type == OpType::Constant { }
        else {
            assert forall|j: int| #![trigger l.outputs@[j]] 0 <= j < (if l.op_type == OpType::Range { 1int } else { l.outputs@.len() as int }) implies b.contains_key(l.outputs@[j]@) by { assert(r@[j].0@ == l.outputs@[j]@); }
        }
    }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_all_shapes
%%opt for_own 1
requires order_in(*graph), forall|k: Seq<char>| #![trigger model.initializers@.contains_key(k)] model.initializers@.contains_key(k) ==> model.initializers@[k].name@ == k,
ensures
    match r {
        Ok(res) => exists|t: Seq<(Shp, Cst)>| #[trigger] trace(*model, *graph, t) && t.len() == graph.topo_order@.len() + 1 && t.last().0 == res@ && all_named(*graph, res@, graph.topo_order@.len() as int),
        Err(_) => exists|t: Seq<(Shp, Cst)>| #[trigger] trace(*model, *graph, t) && failed(*model, *graph, t),
    },
%%loop L0
exists|ks: Seq<Seq<char>>| #[trigger] values_by(model.initializers@, ks, srcL0@) && forall|s: Seq<char>| #![trigger shapes@.contains_key(s)] opt_has(shapes@, s, if exists|q: int| 0 <= q < ixL0 && ks[q] == s { Some(td_shape(model.initializers@[s])) } else { None }),
%%post L0
assert forall|s: Seq<char>| #![trigger shapes@.contains_key(s)] opt_has(shapes@, s, decl(*model, s, 0, 0)) by {
    let z = model.initializers@.contains_key(s);
    let zz = shapes@.contains_key(s);
}
assert(declared(shapes@, *model, 0, 0));
%%loop L1
declared(shapes@, *model, ixL1 as int, 0),
%%gbody L1
let ghost s1 = shapes@;
%%end L1
assert(shape@ =~= dext(io.shape@));
assert forall|s: Seq<char>| #![trigger shapes@.contains_key(s)] opt_has(shapes@, s, decl(*model, s, ixL1 as int, 0)) by { let z = s1.contains_key(s); }
%%loop L2
declared(shapes@, *model, model.inputs@.len() as int, ixL2 as int),
%%gbody L2
let ghost s2 = shapes@;
%%end L2
assert(shape@ =~= dext(io.shape@));
assert forall|s: Seq<char>| #![trigger shapes@.contains_key(s)] opt_has(shapes@, s, decl(*model, s, model.inputs@.len() as int, ixL2 as int)) by { let z = s2.contains_key(s); }
%%pre L3
assert(start(*model, shapes@, constant_tensors@, 0));
%%loop L3
start(*model, shapes@, constant_tensors@, ixL3 as int),
%%gpre L4
let ghost mut tr: Seq<(Shp, Cst)> = Seq::empty();
%%pre L4
tr = seq![(shapes@, constant_tensors@)];
assert(trace(*model, *graph, tr));
%%loop L4
trace(*model, *graph, tr), tr.len() == ixL4 + 1, tr.last() == (shapes@, constant_tensors@), all_named(*graph, shapes@, ixL4 as int), srcL4@.len() == graph.topo_order@.len(),
%%gbody L4
let ghost s4 = shapes@; let ghost c4 = constant_tensors@;
%%body L4
assert(*srcL4@[ixL4 - 1] == graph.layers@[graph.topo_order@[ixL4 - 1] as int]);
assert forall|e: Result<Vec<(String, Vec<usize>)>, VErr>| #[trigger] layer_res(*layer, shapes@, model.initializers@, constant_tensors@, e) && e is Err implies failed(*model, *graph, tr) by {
    assert(layer_res(graph.layers@[graph.topo_order@[tr.len() - 1] as int], tr.last().0, model.initializers@, tr.last().1, e));
}
%%end L4
lemma_named(*graph, s4, ixL4 - 1, *layer, output_shapes, model.initializers@, c4);
lemma_trace(*model, *graph, tr, shapes@, constant_tensors@, output_shapes);
tr = tr.push((shapes@, constant_tensors@));
%%loop L5
shapes@ == put(s4, output_shapes@, ixL5 as int),
%%body L3
assert forall|s: Seq<char>| #![trigger kval(model.nodes@, s, ixL3 as int)] kval(model.nodes@, s, ixL3 as int) == (if kconst(*node) is Some && kout(*node, s) { kconst(*node) } else { kval(model.nodes@, s, ixL3 - 1) }) by { }
