%%include onnx_base.vc
%%type HashMap::new() => SMap::new()
%%type path: &Path => path: &VPath
%%type std::fs::read(path) => vx_read(path)
%%type ModelProto::decode(bytes.as_slice()) => vx_decode(bytes.as_slice())
%%type .vx_as_deref().unwrap_or_default() => .vx_as_deref().vx_or_dflt()
%%type super::TypeProto => TypeProto
%%type super::type_proto::Value:: => TypeValue::
%%type super::tensor_shape_proto::dimension::Value:: => DimValueE::
%%type super::ValueInfoProto => ValueInfoProto
%%type AttributeType::try_from(t).ok() => vx_attr_type(t)
%%type String::from_utf8_lossy(s).to_string() => vx_utf8_lossy(s)
%%type DataType::try_from(data_type).unwrap_or(DataType::Undefined) => vx_data_type(data_type)
%%raw
impl<V> SMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { SMap { m: HashMap::new() } }
}
pub trait VxOrDflt<'a> { spec fn od(self) -> Seq<u8>; fn vx_or_dflt(self) -> (r: &'a [u8]) ensures r@ == self.od(); }
impl<'a> VxOrDflt<'a> for Option<&'a [u8]> { open spec fn od(self) -> Seq<u8> { match self { Some(s) => s@, None => Seq::empty() } } fn vx_or_dflt(self) -> (r: &'a [u8]) { match self { Some(s) => s, None => { let e: &'static [u8; 0] = &[]; proof { assert(e@ =~= Seq::<u8>::empty()); } e.as_slice() } } } }
// ---- little-endian numbers: uninterpreted value of a byte sequence --------------------------------
pub uninterp spec fn le_i32(s: Seq<u8>) -> i32;
pub uninterp spec fn le_i64(s: Seq<u8>) -> i64;
pub uninterp spec fn le_f32(s: Seq<u8>) -> f32;
pub uninterp spec fn le_f64(s: Seq<u8>) -> f64;
#[verifier::external_body] pub fn vx_from_le_i32(s: &[u8]) -> (r: i32) requires s@.len() == 4 ensures r == le_i32(s@) { i32::from_le_bytes(s.try_into().unwrap()) }
#[verifier::external_body] pub fn vx_from_le_i64(s: &[u8]) -> (r: i64) requires s@.len() == 8 ensures r == le_i64(s@) { i64::from_le_bytes(s.try_into().unwrap()) }
#[verifier::external_body] pub fn vx_from_le_f32(s: &[u8]) -> (r: f32) requires s@.len() == 4 ensures r == le_f32(s@) { f32::from_le_bytes(s.try_into().unwrap()) }
#[verifier::external_body] pub fn vx_from_le_f64(s: &[u8]) -> (r: f64) requires s@.len() == 8 ensures r == le_f64(s@) { f64::from_le_bytes(s.try_into().unwrap()) }
pub uninterp spec fn widen(f: f32) -> f64;
pub trait VxToF64 : Sized { spec fn tf(self) -> f64; fn to_(self) -> (r: f64) ensures r == self.tf(); }
impl VxToF64 for f32 { open spec fn tf(self) -> f64 { widen(self) } #[verifier::external_body] fn to_(self) -> (r: f64) { self as f64 } }
impl VxToF64 for i64 { open spec fn tf(self) -> f64 { i2f(self) } #[verifier::external_body] fn to_(self) -> (r: f64) { self as f64 } }
pub fn vx_to_f64<T: VxToF64>(x: T) -> (r: f64) ensures r == x.tf() { x.to_() }
pub fn vx_chunks_exact<'a>(s: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0
    ensures r@.len() == s@.len() / n as nat, forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i]@ == part(s@, n as int, i)
{
    let mut out: Vec<&'a [u8]> = Vec::new();
    let mut i = 0usize;
    proof { assert(0 == 0 * n as int) by(nonlinear_arith); }
    while s.len() - i >= n
        invariant n > 0, i <= s@.len(), i == out@.len() * n, forall|j: int| #![trigger out@[j]] 0 <= j < out@.len() ==> out@[j]@ == part(s@, n as int, j)
        decreases s@.len() - i
    {
        let k: Ghost<int> = Ghost(out@.len() as int);
        out.push(&s[i..i + n]);
        proof { assert(i as int == k@ * n as int); assert((k@ + 1) * n as int == i + n) by(nonlinear_arith) requires i as int == k@ * n as int; assert(part(s@, n as int, k@) =~= s@.subrange(i as int, i + n)); }
        i = i + n;
    }
    proof { let k = out@.len() as int; let l = s@.len() as int; let m = n as int;
        assert(l / m == k) by(nonlinear_arith) requires m > 0, k * m <= l, l < k * m + m; }
    out
}
pub open spec fn part(s: Seq<u8>, n: int, i: int) -> Seq<u8> { s.subrange(i * n, i * n + n) }
// ---- protobuf messages: the fields the parser reads (generated by prost from onnx.proto) ------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum DataType { Undefined, Float, Uint8, Int8, Uint16, Int16, Int32, Int64, String, Bool, Float16, Double, Uint32, Uint64, Complex64, Complex128, Bfloat16, Other(i32) }
pub open spec fn data_type_of(c: i32) -> DataType {
    if c == 1 { DataType::Float } else if c == 2 { DataType::Uint8 } else if c == 3 { DataType::Int8 } else if c == 4 { DataType::Uint16 } else if c == 5 { DataType::Int16 }
    else if c == 6 { DataType::Int32 } else if c == 7 { DataType::Int64 } else if c == 8 { DataType::String } else if c == 9 { DataType::Bool } else if c == 10 { DataType::Float16 }
    else if c == 11 { DataType::Double } else if c == 12 { DataType::Uint32 } else if c == 13 { DataType::Uint64 } else if c == 14 { DataType::Complex64 } else if c == 15 { DataType::Complex128 }
    else if c == 16 { DataType::Bfloat16 } else if 17 <= c <= 32 { DataType::Other(c) } else { DataType::Undefined }
}
#[verifier::external_body] pub fn vx_data_type(c: i32) -> (r: DataType) ensures r == data_type_of(c) { DataType::Undefined }
pub struct TensorProto { pub dims: Vec<i64>, pub data_type: Option<i32>, pub float_data: Vec<f32>, pub int32_data: Vec<i32>, pub string_data: Vec<Vec<u8>>, pub int64_data: Vec<i64>, pub name: Option<String>, pub raw_data: Option<Vec<u8>>, pub double_data: Vec<f64>, pub uint64_data: Vec<u64>, pub data_location: Option<i32> }
// ---- what a tensor message stands for ----------------------------------------------------------------
pub open spec fn name_of(o: Option<String>) -> Seq<char> { match o { Some(s) => s@, None => Seq::empty() } }
pub open spec fn width(t: DataType) -> int { match t { DataType::Float | DataType::Int32 => 4, DataType::Double | DataType::Int64 => 8, DataType::Bool => 1, _ => 0 } }
pub open spec fn iprod(s: Seq<i64>) -> int decreases s.len() { if s.len() == 0 { 1 } else { iprod(s.drop_last()) * s.last() as int } }
pub open spec fn raw_floats(t: DataType, s: Seq<u8>) -> Seq<f64> {
    match t { DataType::Float => Seq::new(s.len() / 4, |i: int| widen(le_f32(part(s, 4, i)))), DataType::Double => Seq::new(s.len() / 8, |i: int| le_f64(part(s, 8, i))), _ => Seq::empty() }
}
pub open spec fn raw_ints(t: DataType, s: Seq<u8>) -> Seq<i64> {
    match t { DataType::Int32 => Seq::new(s.len() / 4, |i: int| le_i32(part(s, 4, i)) as i64), DataType::Int64 => Seq::new(s.len() / 8, |i: int| le_i64(part(s, 8, i))), DataType::Bool => Seq::new(s.len(), |i: int| if s[i] != 0u8 { 1i64 } else { 0i64 }), _ => Seq::empty() }
}
pub open spec fn plain(t: DataType) -> bool { match t { DataType::Float | DataType::Double | DataType::Int8 | DataType::Int16 | DataType::Int32 | DataType::Int64 | DataType::Uint8 | DataType::Uint16 | DataType::Bool => true, _ => false } }
pub open spec fn dt_of(t: TensorProto) -> DataType { data_type_of(match t.data_type { Some(c) => c, None => 0 }) }
pub open spec fn p_floats(t: TensorProto) -> Seq<f64> {
    match t.raw_data { Some(raw) => raw_floats(dt_of(t), raw@), None => Seq::new(t.float_data@.len(), |i: int| widen(t.float_data@[i])) + t.double_data@ }
}
pub open spec fn p_ints(t: TensorProto) -> Seq<i64> {
    match t.raw_data { Some(raw) => raw_ints(dt_of(t), raw@), None => Seq::new(t.int32_data@.len(), |i: int| t.int32_data@[i] as i64) + t.int64_data@ }
}
/// data present in a form the parser decodes, one value per element
pub open spec fn decodable(t: TensorProto) -> bool {
    &&& match t.raw_data { Some(raw) => width(dt_of(t)) > 0 && raw@.len() % (width(dt_of(t)) as nat) == 0, None => plain(dt_of(t)) }
    &&& forall|i: int| #![trigger t.dims@[i]] 0 <= i < t.dims@.len() ==> t.dims@[i] >= 0
    &&& p_floats(t).len() + p_ints(t).len() == iprod(t.dims@)
}
/// vectors of a decoded message fit the address space
pub open spec fn sizes_ok(t: TensorProto) -> bool { t.float_data@.len() + t.double_data@.len() < 0x1000_0000_0000 && t.int32_data@.len() + t.int64_data@.len() < 0x1000_0000_0000 && match t.raw_data { Some(r) => r@.len() < 0x1000_0000_0000, None => true } }
/// every prefix of the extents has a product of machine size
pub open spec fn dims_fit(s: Seq<i64>) -> bool { forall|k: int| 0 <= k <= s.len() ==> -0x8000_0000_0000_0000 <= #[trigger] iprod(s.take(k)) <= usize::MAX }
pub open spec fn tensor_of(t: TensorProto, r: TensorData) -> bool {
    r.name@ == name_of(t.name) && r.dims@ == t.dims@ && r.data_type == (match t.data_type { Some(c) => c, None => 0i32 }) && r.float_data@ == p_floats(t) && r.int_data@ == p_ints(t)
}
/// kinds of attribute that are kept
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum AttributeType { Undefined, Float, Int, String, Tensor, Graph, SparseTensor, TypeProto, Floats, Ints, Strings, Tensors, Graphs, SparseTensors, TypeProtos }
pub open spec fn attr_type_of(c: i32) -> Option<AttributeType> {
    if c == 0 { Some(AttributeType::Undefined) } else if c == 1 { Some(AttributeType::Float) } else if c == 2 { Some(AttributeType::Int) } else if c == 3 { Some(AttributeType::String) } else if c == 4 { Some(AttributeType::Tensor) }
    else if c == 5 { Some(AttributeType::Graph) } else if c == 6 { Some(AttributeType::Floats) } else if c == 7 { Some(AttributeType::Ints) } else if c == 8 { Some(AttributeType::Strings) } else if c == 9 { Some(AttributeType::Tensors) }
    else if c == 10 { Some(AttributeType::Graphs) } else if c == 11 { Some(AttributeType::SparseTensor) } else if c == 12 { Some(AttributeType::SparseTensors) } else if c == 13 { Some(AttributeType::TypeProto) } else if c == 14 { Some(AttributeType::TypeProtos) } else { None }
}
#[verifier::external_body] pub fn vx_attr_type(c: i32) -> (r: Option<AttributeType>) ensures r == attr_type_of(c) { None }
pub uninterp spec fn utf8_lossy(s: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub fn vx_utf8_lossy(s: &[u8]) -> (r: String) ensures r@ == utf8_lossy(s@) { String::from_utf8_lossy(s).to_string() }
/// a formatted string: a function of its template and arguments
pub uninterp spec fn fmt1(t: Seq<char>, i: int) -> Seq<char>;
#[verifier::external_body] pub fn vx_fmt1(t: &str, i: &usize) -> (r: String) ensures r@ == fmt1(t@, *i as int) { String::new() }
pub struct AttributeProto { pub name: Option<String>, pub r#type: Option<i32>, pub f: Option<f32>, pub i: Option<i64>, pub s: Option<Vec<u8>>, pub t: Option<TensorProto>, pub floats: Vec<f32>, pub ints: Vec<i64> }
pub struct NodeProto { pub input: Vec<String>, pub output: Vec<String>, pub name: Option<String>, pub op_type: Option<String>, pub domain: Option<String>, pub attribute: Vec<AttributeProto> }
pub enum DimValueE { DimValue(i64), DimParam(String) }
pub struct DimensionP { pub value: Option<DimValueE> }
pub struct TensorShapeP { pub dim: Vec<DimensionP> }
pub struct TensorTypeP { pub elem_type: Option<i32>, pub shape: Option<TensorShapeP> }
pub enum TypeValue { TensorType(TensorTypeP), SequenceType(u8), MapType(u8), OptionalType(u8), SparseTensorType(u8), OpaqueType(u8) }
pub struct TypeProto { pub value: Option<TypeValue> }
pub struct ValueInfoProto { pub name: Option<String>, pub r#type: Option<TypeProto> }
pub struct GraphProto { pub node: Vec<NodeProto>, pub initializer: Vec<TensorProto>, pub input: Vec<ValueInfoProto>, pub output: Vec<ValueInfoProto> }
// ---- what the parsed values must be -------------------------------------------------------------------
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn attr_of(a: AttributeProto, r: Option<AttrValue>) -> bool {
    match r {
        Some(AttrValue::Float(v)) => attr_kind(a) == Some(AttributeType::Float) && v == (match a.f { Some(x) => x, None => 0.0f32 }),
        Some(AttrValue::Int(v)) => attr_kind(a) == Some(AttributeType::Int) && v == (match a.i { Some(x) => x, None => 0 }),
        Some(AttrValue::String(v)) => attr_kind(a) == Some(AttributeType::String) && v@ == utf8_lossy(match a.s { Some(x) => x@, None => Seq::empty() }),
        Some(AttrValue::Floats(v)) => attr_kind(a) == Some(AttributeType::Floats) && v@ == a.floats@,
        Some(AttrValue::Ints(v)) => attr_kind(a) == Some(AttributeType::Ints) && v@ == a.ints@,
        Some(AttrValue::Tensor(v)) => attr_kind(a) == Some(AttributeType::Tensor) && match a.t { Some(t) => decodable(t) && tensor_of(t, v), None => false },
        None => !attr_kept(a),
    }
}
pub open spec fn attr_kind(a: AttributeProto) -> Option<AttributeType> { match a.r#type { Some(c) => attr_type_of(c), None => None } }
pub open spec fn attr_kept(a: AttributeProto) -> bool {
    match attr_kind(a) { Some(AttributeType::Float) | Some(AttributeType::Int) | Some(AttributeType::String) | Some(AttributeType::Floats) | Some(AttributeType::Ints) => true, Some(AttributeType::Tensor) => a.t is Some, _ => false }
}
pub open spec fn attr_fits(a: AttributeProto) -> bool { match a.t { Some(t) => sizes_ok(t), None => true } }
pub open spec fn bad_tensor(t: TensorProto) -> bool { !decodable(t) || !dims_fit(t.dims@) }
pub open spec fn bad_attr(a: AttributeProto) -> bool { attr_kind(a) == Some(AttributeType::Tensor) && match a.t { Some(t) => bad_tensor(t), None => false } }
/// `m` maps every initializer name among the first `k` to the last tensor of that name, and nothing else
pub open spec fn itab(m: Map<Seq<char>, TensorData>, v: Seq<TensorProto>, k: int) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < k ==> decodable(v[i]) && m.contains_key(name_of(v[i].name))
    &&& forall|n: Seq<char>| #![trigger m[n]] #![trigger m.contains_key(n)] m.contains_key(n) ==> exists|i: int| last_init(v, k, n, i) && tensor_of(v[i], m[n])
}
pub open spec fn last_init(v: Seq<TensorProto>, k: int, n: Seq<char>, i: int) -> bool {
    0 <= i < k && name_of(v[i].name) == n && forall|j: int| #![trigger v[j]] i < j < k ==> name_of(v[j].name) != n
}
pub open spec fn any_bad(v: Seq<TensorProto>) -> bool { exists|i: int| #![trigger v[i]] 0 <= i < v.len() && bad_tensor(v[i]) }
pub proof fn lemma_itab(m0: Map<Seq<char>, TensorData>, m: Map<Seq<char>, TensorData>, v: Seq<TensorProto>, k: int)
    requires 0 <= k < v.len(), itab(m0, v, k), decodable(v[k]), exists|td: TensorData| tensor_of(v[k], td) && m == m0.insert(name_of(v[k].name), td)
    ensures itab(m, v, k + 1)
{
    let nk = name_of(v[k].name);
    let td = choose|td: TensorData| tensor_of(v[k], td) && m == m0.insert(nk, td);
    assert forall|n: Seq<char>| #![trigger m[n]] #![trigger m.contains_key(n)] m.contains_key(n) implies exists|i: int| last_init(v, k + 1, n, i) && tensor_of(v[i], m[n]) by {
        if n == nk { assert(last_init(v, k + 1, n, k) && tensor_of(v[k], m[n])); }
        else { let z = m0.contains_key(n); let i = choose|i: int| last_init(v, k, n, i) && tensor_of(v[i], m0[n]); assert(last_init(v, k + 1, n, i) && tensor_of(v[i], m[n])); }
    }
}
%%fn rust/jstprove_onnx/src/parser.rs::parse_attribute
requires attr_fits(*attr)
ensures match r { Ok(v) => attr_of(*attr, v), Err(_) => bad_attr(*attr) },
%%fn rust/jstprove_onnx/src/parser.rs::parse_initializers
requires forall|i: int| #![trigger graph.initializer@[i]] 0 <= i < graph.initializer@.len() ==> sizes_ok(graph.initializer@[i])
ensures match r { Ok(m) => itab(m@, graph.initializer@, graph.initializer@.len() as int), Err(_) => any_bad(graph.initializer@) },
%%loop L0
itab(map@, graph.initializer@, ixL0 as int),
%%pre L0
%%gbody L0
let ghost m0 = map@;
%%end L0
lemma_itab(m0, map@, graph.initializer@, ixL0 - 1);
%%item rust/jstprove_onnx/src/parser.rs::ParsedNode
%%item rust/jstprove_onnx/src/parser.rs::IoSpec
%%raw
/// `m` holds the attributes among the first `k` that are named and of a kept kind; the last of a name wins
pub open spec fn atab(m: Map<Seq<char>, AttrValue>, v: Seq<AttributeProto>, k: int) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < k && v[i].name is Some && attr_kept(v[i]) ==> m.contains_key(name_of(v[i].name))
    &&& forall|n: Seq<char>| #![trigger m[n]] #![trigger m.contains_key(n)] m.contains_key(n) ==> exists|i: int| last_attr(v, k, n, i) && attr_of(v[i], Some(m[n]))
}
pub open spec fn last_attr(v: Seq<AttributeProto>, k: int, n: Seq<char>, i: int) -> bool {
    0 <= i < k && is_attr(v[i], n) && forall|j: int| #![trigger v[j]] i < j < k ==> !is_attr(v[j], n)
}
pub open spec fn is_attr(a: AttributeProto, n: Seq<char>) -> bool { a.name is Some && a.name->Some_0@ == n && attr_kept(a) }
pub proof fn lemma_atab(m0: Map<Seq<char>, AttrValue>, m: Map<Seq<char>, AttrValue>, v: Seq<AttributeProto>, k: int)
    requires 0 <= k < v.len(), atab(m0, v, k),
        (!(v[k].name is Some && attr_kept(v[k])) && m == m0) || (v[k].name is Some && exists|x: AttrValue| attr_of(v[k], Some(x)) && m == m0.insert(v[k].name->Some_0@, x)),
    ensures atab(m, v, k + 1)
{
    if v[k].name is Some && exists|x: AttrValue| attr_of(v[k], Some(x)) && m == m0.insert(v[k].name->Some_0@, x) {
        let nk = v[k].name->Some_0@;
        let x = choose|x: AttrValue| attr_of(v[k], Some(x)) && m == m0.insert(nk, x);
        assert forall|n: Seq<char>| #![trigger m[n]] #![trigger m.contains_key(n)] m.contains_key(n) implies exists|i: int| last_attr(v, k + 1, n, i) && attr_of(v[i], Some(m[n])) by {
            if n == nk { assert(last_attr(v, k + 1, n, k) && attr_of(v[k], Some(m[n]))); }
            else { let z = m0.contains_key(n); let i = choose|i: int| last_attr(v, k, n, i) && attr_of(v[i], Some(m0[n])); assert(last_attr(v, k + 1, n, i) && attr_of(v[i], Some(m[n]))); }
        }
    } else {
        assert forall|n: Seq<char>| #![trigger m[n]] #![trigger m.contains_key(n)] m.contains_key(n) implies exists|i: int| last_attr(v, k + 1, n, i) && attr_of(v[i], Some(m[n])) by {
            let z = m0.contains_key(n); let i = choose|i: int| last_attr(v, k, n, i) && attr_of(v[i], Some(m0[n])); assert(last_attr(v, k + 1, n, i) && attr_of(v[i], Some(m[n])));
        }
    }
}
pub open spec fn node_of(p: NodeProto, i: int, r: ParsedNode) -> bool {
    &&& r.name@ == (match p.name { Some(n) => n@, None => fmt1("node_{idx}"@, i) })
    &&& r.op_type@ == name_of(p.op_type) && r.domain@ == name_of(p.domain)
    &&& same_strs(r.inputs@, p.input@) && same_strs(r.outputs@, p.output@)
    &&& atab(r.attributes@, p.attribute@, p.attribute@.len() as int)
}
pub open spec fn same_strs(a: Seq<String>, b: Seq<String>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i]@ == b[i]@ }
pub open spec fn nodes_fit(v: Seq<NodeProto>) -> bool { forall|i: int, j: int| #![trigger v[i].attribute@[j]] 0 <= i < v.len() && 0 <= j < v[i].attribute@.len() ==> attr_fits(v[i].attribute@[j]) }
pub open spec fn any_bad_attr(v: Seq<NodeProto>) -> bool { exists|i: int, j: int| #![trigger v[i].attribute@[j]] 0 <= i < v.len() && 0 <= j < v[i].attribute@.len() && bad_attr(v[i].attribute@[j]) }
%%fn rust/jstprove_onnx/src/parser.rs::parse_nodes
%%opt fmt 1
requires nodes_fit(graph.node@)
ensures match r { Ok(v) => nodes_of(graph.node@, v@), Err(_) => any_bad_attr(graph.node@) },
%%loop L0
result@.len() == ixL0, forall|i: int| #![trigger result@[i]] 0 <= i < ixL0 ==> node_of(graph.node@[i], i, result@[i]),
%%gbody L0
let ghost r0 = result@;
%%loop L1
atab(attributes@, node.attribute@, ixL1 as int), *node == graph.node@[ixL0 - 1],
%%gbody L1
let ghost m0 = attributes@;
proof { hint(attr_fits(graph.node@[ixL0 - 1].attribute@[ixL1 - 1])); }
%%end L1
lemma_atab(m0, attributes@, node.attribute@, ixL1 - 1);
%%raw
pub open spec fn nodes_of(p: Seq<NodeProto>, v: Seq<ParsedNode>) -> bool { v.len() == p.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> node_of(p[i], i, v[i]) }
pub open spec fn dim_of(d: DimensionP) -> i64 { match d.value { Some(DimValueE::DimValue(v)) => v, _ => -1i64 } }
pub open spec fn tensor_type(p: ValueInfoProto) -> Option<TensorTypeP> { match p.r#type { Some(t) => match t.value { Some(TypeValue::TensorType(tt)) => Some(tt), _ => None }, None => None } }
pub open spec fn io_of(p: ValueInfoProto, r: IoSpec) -> bool {
    &&& r.name@ == name_of(p.name)
    &&& r.elem_type == (match tensor_type(p) { Some(tt) => match tt.elem_type { Some(e) => e, None => 0i32 }, None => 0i32 })
    &&& r.shape@ == (match tensor_type(p) { Some(tt) => match tt.shape { Some(s) => Seq::new(s.dim@.len(), |i: int| dim_of(s.dim@[i])), None => Seq::empty() }, None => Seq::empty() })
}
pub open spec fn ios_of(p: Seq<ValueInfoProto>, v: Seq<IoSpec>) -> bool { v.len() == p.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> io_of(p[i], v[i]) }
%%fn rust/jstprove_onnx/src/parser.rs::parse_value_infos
ensures ios_of(infos@, r@),
%%loop A0
outA0@.len() == ixA0, forall|i: int| #![trigger outA0@[i]] 0 <= i < ixA0 ==> io_of(infos@[i], outA0@[i]),
%%loop A1
forall|i: int| #![trigger outA1@[i]] 0 <= i < ixA1 ==> outA1@[i] == dim_of(s.dim@[i]),
%%post A1
assert(outA1@ =~= Seq::new(s.dim@.len(), |i: int| dim_of(s.dim@[i])));
%%fn rust/jstprove_onnx/src/parser.rs::TensorData::total_elements
requires all_nonneg(self.dims@), prod1(td_shape(*self)) <= usize::MAX
ensures r == prod(td_shape(*self)),
%%post A0
assert(outA0@ =~= td_shape(*self));
%%fn rust/jstprove_onnx/src/parser.rs::TensorData::as_f64_vec
%%opt fcast 1
%%opt noauto A0
ensures r@ == td_floats(*self),
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> outA0@[jj] == i2f(self.int_data@[jj]),
%%post A0
assert(outA0@ =~= td_floats(*self));
%%raw
pub uninterp spec fn i2f(i: i64) -> f64;
pub open spec fn td_floats(t: TensorData) -> Seq<f64> { if t.float_data@.len() > 0 { t.float_data@ } else { Seq::new(t.int_data@.len(), |i: int| i2f(t.int_data@[i])) } }
// ---- the model file: reading and protobuf decoding are the standard library's and prost's ---------------
pub struct VPath { pub p: u8 }
pub uninterp spec fn file_at(p: VPath) -> Option<Seq<u8>>;
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<ModelProto>;
#[verifier::external_body] pub fn vx_read(p: &VPath) -> (r: Result<Vec<u8>, VErr>) ensures match r { Ok(v) => file_at(*p) == Some(v@), Err(_) => file_at(*p) is None } { Err(vx_err()) }
#[verifier::external_body] pub fn vx_decode(b: &[u8]) -> (r: Result<ModelProto, VErr>) ensures match r { Ok(v) => decoded(b@) == Some(v), Err(_) => decoded(b@) is None } { Err(vx_err()) }
pub struct OperatorSetIdProto { pub domain: Option<String>, pub version: Option<i64> }
pub struct ModelProto { pub graph: Option<GraphProto>, pub opset_import: Vec<OperatorSetIdProto> }
pub open spec fn is_default_domain(o: OperatorSetIdProto) -> bool { match o.domain { Some(d) => d@.len() == 0, None => true } }
pub open spec fn version_of(o: OperatorSetIdProto) -> i64 { match o.version { Some(v) => v, None => 0i64 } }
pub open spec fn has_version(v: Seq<OperatorSetIdProto>, r: i64) -> bool { exists|i: int| #![trigger v[i]] 0 <= i < v.len() && is_default_domain(v[i]) && version_of(v[i]) == r }
pub proof fn lemma_versions(v: Seq<OperatorSetIdProto>, q0: Seq<i64>, q: Seq<i64>, k: int)
    requires 0 <= k < v.len(), is_default_domain(v[k]) ==> q == q0.push(version_of(v[k])), !is_default_domain(v[k]) ==> q == q0,
        forall|j: int| #![trigger q0[j]] 0 <= j < q0.len() ==> has_version(v.take(k), q0[j]),
        forall|i: int| #![trigger v[i]] 0 <= i < k && is_default_domain(v[i]) ==> q0.contains(version_of(v[i])),
    ensures forall|j: int| #![trigger q[j]] 0 <= j < q.len() ==> has_version(v.take(k + 1), q[j]),
        forall|i: int| #![trigger v[i]] 0 <= i < k + 1 && is_default_domain(v[i]) ==> q.contains(version_of(v[i])),
{
    assert forall|j: int| #![trigger q[j]] 0 <= j < q.len() implies has_version(v.take(k + 1), q[j]) by {
        if j < q0.len() { let z = q0[j]; let i = choose|i: int| #![trigger v.take(k)[i]] 0 <= i < k && is_default_domain(v.take(k)[i]) && version_of(v.take(k)[i]) == z; assert(v.take(k + 1)[i] == v[i]); }
        else { assert(v.take(k + 1)[k] == v[k]); }
    }
    assert forall|i: int| #![trigger v[i]] 0 <= i < k + 1 && is_default_domain(v[i]) implies q.contains(version_of(v[i])) by {
        if i < k { let x = version_of(v[i]); let j = choose|j: int| 0 <= j < q0.len() && q0[j] == x; assert(q[j] == x); } else { assert(q[q0.len() as int] == version_of(v[k])); }
    }
}
/// the highest version imported for the default domain; 0 when there is none
pub open spec fn opset_is(v: Seq<OperatorSetIdProto>, r: i64) -> bool {
    ||| (r == 0 && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> !is_default_domain(v[i]))
    ||| has_version(v, r) && forall|i: int| #![trigger v[i]] 0 <= i < v.len() && is_default_domain(v[i]) ==> version_of(v[i]) <= r
}
pub open spec fn graph_fits(g: GraphProto) -> bool { nodes_fit(g.node@) && forall|i: int| #![trigger g.initializer@[i]] 0 <= i < g.initializer@.len() ==> sizes_ok(g.initializer@[i]) }
pub open spec fn model_of(p: VPath) -> Option<ModelProto> { match file_at(p) { Some(b) => decoded(b), None => None } }
pub open spec fn graph_of(p: VPath) -> Option<GraphProto> { match model_of(p) { Some(m) => m.graph, None => None } }
pub open spec fn parsed_of(p: VPath, r: ParsedModel) -> bool {
    match model_of(p) { Some(m) => match m.graph { Some(g) => nodes_of(g.node@, r.nodes@) && itab(r.initializers@, g.initializer@, g.initializer@.len() as int) && ios_of(g.input@, r.inputs@) && ios_of(g.output@, r.outputs@) && opset_is(m.opset_import@, r.opset_version), None => false }, None => false }
}
%%item rust/jstprove_onnx/src/parser.rs::ParsedModel
%%fn rust/jstprove_onnx/src/parser.rs::parse_onnx
requires match graph_of(*path) { Some(g) => graph_fits(g), None => true }
ensures match r { Ok(v) => parsed_of(*path, v), Err(_) => match graph_of(*path) { Some(g) => any_bad(g.initializer@) || any_bad_attr(g.node@), None => true } },
%%loop A0
forall|j: int| #![trigger outA0@[j]] 0 <= j < outA0@.len() ==> has_version(model.opset_import@.take(ixA0 as int), outA0@[j]),
forall|i: int| #![trigger model.opset_import@[i]] 0 <= i < ixA0 && is_default_domain(model.opset_import@[i]) ==> outA0@.contains(version_of(model.opset_import@[i])),
%%gbody A0
let ghost q0 = outA0@;
%%end A0
reveal_strlit(""); assert(""@.len() == 0);
lemma_versions(model.opset_import@, q0, outA0@, ixA0 - 1);
%%post A0
assert(model.opset_import@.take(model.opset_import@.len() as int) =~= model.opset_import@);
%%fn rust/jstprove_onnx/src/parser.rs::extract_tensor_data
%%opt fcast 1
%%opt noauto A0
requires sizes_ok(*tensor)
ensures match r { Ok(v) => decodable(*tensor) && tensor_of(*tensor, v), Err(_) => !decodable(*tensor) || !dims_fit(tensor.dims@) },
%%loop L0
float_data@.len() == ixL0, int_data@ =~= Seq::<i64>::empty(), forall|j: int| #![trigger float_data@[j]] 0 <= j < ixL0 ==> float_data@[j] == widen(le_f32(part(raw@, 4, j))),
%%loop L1
float_data@.len() == ixL1, int_data@ =~= Seq::<i64>::empty(), forall|j: int| #![trigger float_data@[j]] 0 <= j < ixL1 ==> float_data@[j] == le_f64(part(raw@, 8, j)),
%%loop L2
int_data@.len() == ixL2, float_data@ =~= Seq::<f64>::empty(), forall|j: int| #![trigger int_data@[j]] 0 <= j < ixL2 ==> int_data@[j] == le_i32(part(raw@, 4, j)) as i64,
%%loop L3
int_data@.len() == ixL3, float_data@ =~= Seq::<f64>::empty(), forall|j: int| #![trigger int_data@[j]] 0 <= j < ixL3 ==> int_data@[j] == le_i64(part(raw@, 8, j)),
%%loop L4
int_data@.len() == ixL4, float_data@ =~= Seq::<f64>::empty(), forall|j: int| #![trigger int_data@[j]] 0 <= j < ixL4 ==> int_data@[j] == (if raw@[j] != 0u8 { 1i64 } else { 0i64 }),
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> outA0@[jj] == widen(tensor.float_data@[jj]),
%%loop L5
elements == iprod(dims@.take(ixL5 as int)), forall|k: int| #![trigger dims@[k]] 0 <= k < ixL5 ==> dims@[k] >= 0,
%%pre L5
assert(float_data@ =~= p_floats(*tensor)); assert(int_data@ =~= p_ints(*tensor));
assert(dims@.take(0) =~= Seq::<i64>::empty());
%%body L5
assert(dims@.take(ixL5 as int).drop_last() =~= dims@.take(ixL5 as int - 1));
assert(hint(iprod(dims@.take(ixL5 as int)) == 0));
%%post L5
assert(dims@.take(dims@.len() as int) =~= dims@);
