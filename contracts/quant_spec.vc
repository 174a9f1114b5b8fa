%%type HashMap::new() => SMap::new()
%%raw
impl<V> SMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { SMap { m: HashMap::new() } }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
}
impl Clone for TensorData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the numbers stored in a constant
pub open spec fn td_r(t: TensorData) -> Seq<real> { if t.float_data@.len() > 0 { rs(t.float_data@) } else { Seq::new(t.int_data@.len(), |i: int| t.int_data@[i] as real) } }
pub open spec fn nprod(s: Seq<i64>) -> int decreases s.len() { if s.len() == 0 { 1 } else { nprod(s.drop_last()) * s.last() } }
/// one value per element, extents fit the machine
pub open spec fn td_ok(t: TensorData) -> bool {
    &&& td_r(t).len() == prod(td_shape(t)) && prod1(td_shape(t)) <= usize::MAX
    &&& forall|i: int| #![trigger t.float_data@[i]] 0 <= i < t.float_data@.len() ==> t.float_data@[i].fin()
}
pub open spec fn weights_ok(l: LayerNode) -> bool { forall|n: Seq<char>| #![trigger l.weights@[n]] l.weights@.contains_key(n) ==> td_ok(l.weights@[n]) }
pub open spec fn wt(l: LayerNode, k: int) -> Option<TensorData> { match inp(l, k) { Some(n) => if l.weights@.contains_key(n) { Some(l.weights@[n]) } else { None }, None => None } }
pub open spec fn wr(l: LayerNode, k: int) -> Seq<real> { match wt(l, k) { Some(t) => td_r(t), None => Seq::empty() } }
/// |v| is a magnitude an operand `k` can take: up to the recorded bound, a stored constant's entries, or 1 when nothing is known
pub open spec fn opnd(l: LayerNode, b: Map<Seq<char>, VF>, k: int, v: real) -> bool {
    match inp(l, k) {
        Some(n) => if b.contains_key(n) { vr_abs(v) <= b[n].r() } else if wr(l, k).len() > 0 { wr(l, k).contains(v) } else { vr_abs(v) <= 1real },
        None => vr_abs(v) <= 1real,
    }
}
/// every value operand `k` can take is at most `m` in magnitude
pub open spec fn opb(l: LayerNode, b: Map<Seq<char>, VF>, k: int, m: real) -> bool { m >= 0real && forall|v: real| #![trigger opnd(l, b, k, v)] opnd(l, b, k, v) ==> vr_abs(v) <= m }
pub open spec fn nonneg(b: Map<Seq<char>, VF>) -> bool { forall|n: Seq<char>| #![trigger b[n]] b.contains_key(n) ==> b[n].r() >= 0real }
/// constant operand `k` (bias, offset, scale): 0 when it is not a constant
pub open spec fn cst(l: LayerNode, k: int, v: real) -> bool { v == 0real || wr(l, k).contains(v) }
/// inputs along one accumulation
pub open spec fn arg(l: LayerNode, b: Map<Seq<char>, VF>, k: int, x: Seq<real>) -> bool { forall|i: int| #![trigger x[i]] 0 <= i < x.len() ==> x[i] == 0real || opnd(l, b, k, x[i]) }
/// accumulation of one output of a linear operator: weights `w` against any admissible inputs, plus any bias entry
pub open spec fn lin(l: LayerNode, b: Map<Seq<char>, VF>, k: int, kb: int, w: Seq<real>, r: real) -> bool {
    forall|x: Seq<real>, c: real| #![trigger dot(w, x), cst(l, kb, c)] x.len() == w.len() && arg(l, b, k, x) && cst(l, kb, c) ==> vr_abs(dot(w, x) + c) <= r
}
pub open spec fn per(v: Seq<real>, n: int) -> int { if n > 0 { v.len() as int / n } else { 0 } }
/// columns and rows of a weight matrix stored row-major
pub open spec fn col(v: Seq<real>, n: int, c: int) -> Seq<real> { Seq::new(per(v, n) as nat, |i: int| v[i * n + c]) }
pub open spec fn row(v: Seq<real>, n: int, i: int) -> Seq<real> { v.subrange(i * n, (i + 1) * n) }
/// the weights of output channel `oc` in a [c_in, c_out, kernel..] tensor
pub open spec fn tcol(v: Seq<real>, ci: int, co: int, ke: int, oc: int) -> Seq<real> { Seq::new((if ci * ke > 0 { (ci * ke) as nat } else { 0 }), |j: int| v[((j / ke) * co + oc) * ke + j % ke]) }
pub open spec fn eps(l: LayerNode) -> real {
    let e = if l.attributes@.contains_key("epsilon"@) { match l.attributes@["epsilon"@] { AttrValue::Float(f) => f.r(), _ => 1real / 100000real } } else { 1real / 100000real };
    if e < 1real / 1000000000000real { 1real / 1000000000000real } else { e }
}
/// scale operand of a normalization: its stored entries, else 1
pub open spec fn gam(l: LayerNode, g: real) -> bool { match wt(l, 1) { Some(t) => td_r(t).contains(g), None => g == 1real } }
pub open spec fn norm_ok(l: LayerNode, b: Map<Seq<char>, VF>, r: real) -> bool {
    forall|m: real, d: real, s: real, g: real, c: real| #![trigger opnd(l, b, 0, m), gam(l, g), cst(l, 2, c), hint3(d, s)]
        opnd(l, b, 0, m) && vr_abs(d) <= 2real * vr_abs(m) && s >= vr_sqrt(eps(l)) && gam(l, g) && cst(l, 2, c) && hint3(d, s) ==> vr_abs(g * (d / s) + c) <= r
}
pub open spec fn hint3(a: real, b: real) -> bool { true }
/// the operator returns (some of) the values of operand `k`
pub open spec fn keeps(l: LayerNode, b: Map<Seq<char>, VF>, k: int, r: real) -> bool { opb(l, b, k, r) }
pub open spec fn lrelu(l: LayerNode) -> real { if l.attributes@.contains_key("alpha"@) { match l.attributes@["alpha"@] { AttrValue::Float(f) => f.r(), _ => 1real / 100real } } else { 1real / 100real } }
pub open spec fn powe(l: LayerNode) -> Option<real> { if wr(l, 1).len() == 1 { Some(wr(l, 1)[0]) } else { None } }
pub open spec fn tens_attr(l: LayerNode, n: Seq<char>) -> Option<TensorData> { if l.attributes@.contains_key(n) { match l.attributes@[n] { AttrValue::Tensor(t) => Some(t), _ => None } } else { None } }
pub open spec fn prodok(l: LayerNode, b: Map<Seq<char>, VF>, r: real) -> bool { forall|x: real, y: real| #![trigger opnd(l, b, 0, x), opnd(l, b, 1, y)] opnd(l, b, 0, x) && opnd(l, b, 1, y) ==> vr_abs(x * y) <= r }
pub open spec fn bnok(l: LayerNode, b: Map<Seq<char>, VF>, r: real) -> bool { forall|x: real, g: real, c: real| #![trigger opnd(l, b, 0, x), gam(l, g), cst(l, 2, c)] opnd(l, b, 0, x) && gam(l, g) && cst(l, 2, c) ==> vr_abs(g * x + c) <= r }
pub open spec fn divok(l: LayerNode, b: Map<Seq<char>, VF>, r: real) -> bool { forall|x: real, j: int| #![trigger opnd(l, b, 0, x), wr(l, 1)[j]] opnd(l, b, 0, x) && 0 <= j < wr(l, 1).len() && wr(l, 1)[j] != 0real ==> vr_abs(x / wr(l, 1)[j]) <= r }
pub open spec fn lreluok(l: LayerNode, b: Map<Seq<char>, VF>, r: real) -> bool { forall|x: real| #![trigger opnd(l, b, 0, x)] opnd(l, b, 0, x) ==> vr_abs(x) <= r && vr_abs(lrelu(l) * x) <= r }
/// every scale entry is at most `g` in magnitude
pub open spec fn gamb(l: LayerNode, g: real) -> bool { g >= 0real && forall|x: real| #![trigger gam(l, x)] gam(l, x) ==> vr_abs(x) <= g }
/// every non-zero entry of the denominator is at least `q` in magnitude
pub open spec fn denb(l: LayerNode, q: real) -> bool { forall|j: int| #![trigger wr(l, 1)[j]] 0 <= j < wr(l, 1).len() && wr(l, 1)[j] != 0real ==> vr_abs(wr(l, 1)[j]) >= q }
pub open spec fn maxabs_ok(s: Seq<real>, m: real) -> bool { m >= 0real && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> vr_abs(s[i]) <= m }
/// `r` bounds the magnitude of every value the layer can produce when its operands stay within theirs
pub open spec fn covers(l: LayerNode, b: Map<Seq<char>, VF>, alpha: real, r: real) -> bool {
    match l.op_type {
        OpType::Conv => wt(l, 1) is Some && ({
            let v = wr(l, 1); let d = td_shape(wt(l, 1)->Some_0);
            d.len() >= 1 && d[0] > 0 && v.len() % (d[0] as nat) == 0 ==> forall|oc: int| #![trigger row(v, per(v, d[0] as int), oc)] 0 <= oc < d[0] ==> lin(l, b, 0, 2, row(v, per(v, d[0] as int), oc), r)
        }),
        OpType::Gemm => wt(l, 1) is Some && ({
            let v = wr(l, 1); let d = td_shape(wt(l, 1)->Some_0);
            if d.len() == 2 && d[0] > 0 && d[1] > 0 && v.len() == d[0] * d[1] {
                if int_or(l, "transB"@, 0) != 0 { forall|c: int| #![trigger row(v, per(v, d[0] as int), c)] 0 <= c < d[0] ==> lin(l, b, 0, 2, row(v, per(v, d[0] as int), c), r) }
                else { forall|c: int| #![trigger col(v, d[1] as int, c)] 0 <= c < d[1] ==> lin(l, b, 0, 2, col(v, d[1] as int, c), r) }
            } else { d.len() == 1 ==> lin(l, b, 0, 2, v, r) }
        }),
        OpType::ConvTranspose => wt(l, 1) is Some && ({
            let v = wr(l, 1); let d = td_shape(wt(l, 1)->Some_0);
            d.len() >= 2 && v.len() > 0 ==> ({
                let ke = prod(d.skip(2));
                forall|oc: int| #![trigger tcol(v, d[0] as int, d[1] as int, ke, oc)] 0 <= oc < d[1] ==> lin(l, b, 0, 2, tcol(v, d[0] as int, d[1] as int, ke, oc), r)
            })
        }),
        OpType::MatMul => if wr(l, 1).len() > 0 {
            let v = wr(l, 1); let d = td_shape(wt(l, 1)->Some_0);
            let n = if d.len() >= 2 { d.last() as int } else { 1 };
            n > 0 ==> forall|c: int| #![trigger col(v, n, c)] 0 <= c < n ==> lin(l, b, 0, -1, col(v, n, c), r)
        } else if wr(l, 0).len() > 0 {
            let v = wr(l, 0); let d = td_shape(wt(l, 0)->Some_0);
            let n = if d.len() >= 1 { d.last() as int } else { 1 };
            n > 0 ==> forall|i: int| #![trigger row(v, n, i)] 0 <= i < per(v, n) ==> lin(l, b, 1, -1, row(v, n, i), r)
        } else { prodok(l, b, r) },
        OpType::BatchNormalization => bnok(l, b, r),
        OpType::Mul => prodok(l, b, r),
        OpType::Add => forall|x: real, y: real| #![trigger opnd(l, b, 0, x), opnd(l, b, 1, y)] opnd(l, b, 0, x) && opnd(l, b, 1, y) ==> vr_abs(x + y) <= r,
        OpType::Sub => forall|x: real, y: real| #![trigger opnd(l, b, 0, x), opnd(l, b, 1, y)] opnd(l, b, 0, x) && opnd(l, b, 1, y) ==> vr_abs(x - y) <= r,
        OpType::Div => wt(l, 1) is Some ==> divok(l, b, r),
        OpType::Max | OpType::Min | OpType::Concat => forall|k: int| 0 <= k < l.inputs@.len() ==> #[trigger] keeps(l, b, k, r),
        OpType::Clip => keeps(l, b, 0, r) && (inp_ne(l, 1) is Some ==> keeps(l, b, 1, r)) && (inp_ne(l, 2) is Some ==> keeps(l, b, 2, r)),
        OpType::Relu | OpType::MaxPool | OpType::AveragePool | OpType::GlobalAveragePool | OpType::Gelu | OpType::HardSwish | OpType::Neg | OpType::Identity | OpType::Split
        | OpType::Cast | OpType::Reshape | OpType::Flatten | OpType::Squeeze | OpType::Unsqueeze | OpType::Tile | OpType::Gather | OpType::GatherElements | OpType::Resize | OpType::GridSample
        | OpType::Transpose | OpType::Slice | OpType::TopK | OpType::Expand | OpType::ReduceMean | OpType::ReduceMax | OpType::ReduceSum => keeps(l, b, 0, r),
        OpType::LeakyRelu => lreluok(l, b, r),
        OpType::Pad => keeps(l, b, 0, r) && (inp_ne(l, 2) is Some ==> keeps(l, b, 2, r)),
        OpType::Where => keeps(l, b, 1, r) && keeps(l, b, 2, r),
        OpType::ScatterND => keeps(l, b, 0, r) && (inp(l, 2) is Some ==> keeps(l, b, 2, r)),
        OpType::Log => keeps(l, b, 0, r) && vr_ln(alpha) <= r,
        OpType::Exp => forall|x: real| #![trigger opnd(l, b, 0, x)] opnd(l, b, 0, x) ==> vr_exp(x) <= r,
        OpType::Sqrt => forall|x: real| #![trigger opnd(l, b, 0, x)] opnd(l, b, 0, x) && x >= 0real ==> x <= r && vr_sqrt(x) <= r,
        OpType::Pow => powe(l) is Some && powe(l)->Some_0 >= 0real && forall|x: real| #![trigger opnd(l, b, 0, x)] opnd(l, b, 0, x) ==> vr_pow(vr_abs(x), powe(l)->Some_0) <= r,
        OpType::LayerNormalization | OpType::InstanceNormalization | OpType::GroupNormalization => norm_ok(l, b, r),
        OpType::Constant => match tens_attr(l, "value"@) { Some(t) => forall|v: real| #![trigger td_r(t).contains(v)] td_r(t).contains(v) ==> vr_abs(v) <= r, None => true },
        OpType::Tanh | OpType::Erf | OpType::Softmax | OpType::Sigmoid | OpType::Sin | OpType::Cos
        | OpType::Not | OpType::And | OpType::Equal | OpType::Greater | OpType::Less => 1real <= r,
        OpType::Shape | OpType::ConstantOfShape | OpType::Range => true,
    }
}
// ---- assumed facts about the real functions --------------------------------------------------------
pub broadcast axiom fn ax_exp_mono(x: real, y: real) requires x <= y ensures #[trigger] vr_exp(x) <= #[trigger] vr_exp(y);
pub broadcast axiom fn ax_sqrt_mono(x: real, y: real) requires 0real <= x <= y ensures #[trigger] vr_sqrt(x) <= #[trigger] vr_sqrt(y);
pub broadcast axiom fn ax_sqrt_pos(x: real) requires x > 0real ensures #[trigger] vr_sqrt(x) > 0real;
pub broadcast axiom fn ax_pow_mono(x: real, y: real, e: real) requires 0real <= x <= y, e >= 0real ensures #[trigger] vr_pow(x, e) <= #[trigger] vr_pow(y, e);
pub broadcast axiom fn ax_pow_pos(x: real, e: real) requires 0real <= x ensures #[trigger] vr_pow(x, e) >= 0real;
pub broadcast axiom fn ax_exp_pos(x: real) ensures #[trigger] vr_exp(x) > 0real;
pub broadcast proof fn lemma_lin(l: LayerNode, b: Map<Seq<char>, VF>, k: int, kb: int, w: Seq<real>, m: real, wl: real, c: real, r: real)
    requires #[trigger] opb(l, b, k, m), l1n(w) <= wl, #[trigger] maxabs_ok(wr(l, kb), c), #[trigger] rmul(wl, m) + c <= r
    ensures #[trigger] lin(l, b, k, kb, w, r)
{
    assert forall|x: Seq<real>, cc: real| #![trigger dot(w, x), cst(l, kb, cc)] x.len() == w.len() && arg(l, b, k, x) && cst(l, kb, cc) implies vr_abs(dot(w, x) + cc) <= r by {
        assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies -m <= x[i] <= m by { if x[i] != 0real { assert(opnd(l, b, k, x[i])); } }
        assert(within(x, m));
        lemma_dot(w, x, m);
        let a = l1n(w);
        assert(a * m <= wl * m) by(nonlinear_arith) requires a <= wl, m >= 0real;
        if cc != 0real { let j = choose|j: int| 0 <= j < wr(l, kb).len() && wr(l, kb)[j] == cc; assert(vr_abs(wr(l, kb)[j]) <= c); }
    }
}
pub broadcast proof fn lemma_lin0(l: LayerNode, b: Map<Seq<char>, VF>, k: int, w: Seq<real>, m: real, wl: real, r: real)
    requires #[trigger] opb(l, b, k, m), l1n(w) <= wl, #[trigger] rmul(wl, m) <= r
    ensures #[trigger] lin(l, b, k, -1, w, r)
{ assert(wr(l, -1).len() == 0); lemma_lin(l, b, k, -1, w, m, wl, 0real, r); }
pub broadcast proof fn lemma_prodok(l: LayerNode, b: Map<Seq<char>, VF>, p: real, q: real, r: real)
    requires #[trigger] opb(l, b, 0, p), #[trigger] opb(l, b, 1, q), #[trigger] rmul(p, q) <= r ensures #[trigger] prodok(l, b, r)
{
    assert forall|x: real, y: real| #![trigger opnd(l, b, 0, x), opnd(l, b, 1, y)] opnd(l, b, 0, x) && opnd(l, b, 1, y) implies vr_abs(x * y) <= r by { lemma_absmul(x, y, p, q); }
}
pub proof fn lemma_absmul(x: real, y: real, p: real, q: real) requires vr_abs(x) <= p, vr_abs(y) <= q ensures vr_abs(x * y) <= p * q
{
    let a = vr_abs(x); let c = vr_abs(y);
    assert(vr_abs(x * y) == a * c) by(nonlinear_arith) requires a == (if x < 0real { -x } else { x }), c == (if y < 0real { -y } else { y });
    assert(a * c <= p * q) by(nonlinear_arith) requires 0real <= a <= p, 0real <= c <= q;
}
pub broadcast proof fn lemma_bnok(l: LayerNode, b: Map<Seq<char>, VF>, g: real, m: real, c: real, r: real)
    requires #[trigger] opb(l, b, 0, m), gamb(l, g), #[trigger] maxabs_ok(wr(l, 2), c), #[trigger] rmul(g, m) + c <= r ensures #[trigger] bnok(l, b, r)
{
    assert forall|x: real, gg: real, cc: real| #![trigger opnd(l, b, 0, x), gam(l, gg), cst(l, 2, cc)] opnd(l, b, 0, x) && gam(l, gg) && cst(l, 2, cc) implies vr_abs(gg * x + cc) <= r by {
        lemma_absmul(gg, x, g, m);
        if cc != 0real { let j = choose|j: int| 0 <= j < wr(l, 2).len() && wr(l, 2)[j] == cc; assert(vr_abs(wr(l, 2)[j]) <= c); }
    }
}
pub proof fn lemma_divle(d: real, s: real, t: real, u: real) requires vr_abs(d) <= t, s >= u, u > 0real ensures vr_abs(d / s) <= t / u
{
    let q = d / s; let z = t / u;
    assert(q * s == d) by(nonlinear_arith) requires q == d / s, s > 0real;
    assert(z * u == t) by(nonlinear_arith) requires z == t / u, u > 0real;
    assert(z >= 0real) by(nonlinear_arith) requires z * u == t, t >= 0real, u > 0real;
    assert(z * s >= z * u) by(nonlinear_arith) requires z >= 0real, s >= u;
    assert(q <= z) by(nonlinear_arith) requires q * s <= z * s, s > 0real;
    assert((-q) * s == -d) by(nonlinear_arith) requires q * s == d;
    assert(-q <= z) by(nonlinear_arith) requires (-q) * s <= z * s, s > 0real;
}
pub broadcast proof fn lemma_normok(l: LayerNode, b: Map<Seq<char>, VF>, g: real, m: real, c: real, z: real, r: real)
    requires #[trigger] opb(l, b, 0, m), gamb(l, g), #[trigger] maxabs_ok(wr(l, 2), c), #[trigger] rmul(g, z) + c <= r, z == rdiv(rmul(2real, m), vr_sqrt(eps(l))), ensures #[trigger] norm_ok(l, b, r)
{
    ax_sqrt_pos(eps(l)); let u = vr_sqrt(eps(l));
    assert forall|x: real, d: real, s: real, gg: real, cc: real| #![trigger opnd(l, b, 0, x), gam(l, gg), cst(l, 2, cc), hint3(d, s)]
        opnd(l, b, 0, x) && vr_abs(d) <= 2real * vr_abs(x) && s >= vr_sqrt(eps(l)) && gam(l, gg) && cst(l, 2, cc) && hint3(d, s) implies vr_abs(gg * (d / s) + cc) <= r by {
        assert(rmul(2real, m) == 2real * m); assert(vr_abs(x) <= m);
        lemma_divle(d, s, 2real * m, u);
        lemma_absmul(gg, d / s, g, z);
        if cc != 0real { let j = choose|j: int| 0 <= j < wr(l, 2).len() && wr(l, 2)[j] == cc; assert(vr_abs(wr(l, 2)[j]) <= c); }
    }
}
pub broadcast proof fn lemma_divok(l: LayerNode, b: Map<Seq<char>, VF>, m: real, q: real, r: real)
    requires #[trigger] opb(l, b, 0, m), q > 0real, r >= #[trigger] rdiv(m, q), denb(l, q) ensures #[trigger] divok(l, b, r)
{
    assert forall|x: real, j: int| #![trigger opnd(l, b, 0, x), wr(l, 1)[j]] opnd(l, b, 0, x) && 0 <= j < wr(l, 1).len() && wr(l, 1)[j] != 0real implies vr_abs(x / wr(l, 1)[j]) <= r by {
        let y = wr(l, 1)[j]; let a = vr_abs(y);
        lemma_divle(x, a, m, q);
        if y < 0real { assert(x / y == -(x / a)) by(nonlinear_arith) requires a == -y, a > 0real; }
    }
}
pub broadcast proof fn lemma_lreluok(l: LayerNode, b: Map<Seq<char>, VF>, m: real, r: real)
    requires #[trigger] opb(l, b, 0, m), r >= m, r >= rmul(vr_abs(lrelu(l)), m) ensures #[trigger] lreluok(l, b, r)
{
    assert forall|x: real| #![trigger opnd(l, b, 0, x)] opnd(l, b, 0, x) implies vr_abs(x) <= r && vr_abs(lrelu(l) * x) <= r by { lemma_absmul(lrelu(l), x, vr_abs(lrelu(l)), m); }
}
/// extents of a constant: the first two, and the product of the rest, stay below the element bound
pub broadcast proof fn lemma_prod1_pair(s: Seq<usize>) requires s.len() >= 2 ensures 0 <= s[0] * s[1] <= #[trigger] prod1(s), 1 <= prod1(s.skip(2)) <= prod1(s), 1 <= prod1(s.subrange(2, s.len() as int)) <= prod1(s), prod(s) == s[0] * s[1] * prod(s.skip(2)), prod(s.skip(2)) >= 0 decreases s.len()
{
    assert(s.subrange(2, s.len() as int) =~= s.skip(2));
    lemma_prod1_pos(s); lemma_prod1_pos(s.skip(2));
    if s.len() == 2 {
        assert(s.skip(2) =~= Seq::empty());
        assert(s.drop_last().drop_last() =~= Seq::empty());
        reveal_with_fuel(prod1, 3); reveal_with_fuel(prod, 3);
        let a = s[0] as int; let b = s[1] as int; let a1 = if a == 0 { 1int } else { a }; let b1 = if b == 0 { 1int } else { b };
        assert(s.drop_last().last() == a && s.last() == b);
        assert(prod1(s) == a1 * b1);
        assert(0 <= a * b <= a1 * b1) by(nonlinear_arith) requires 0 <= a <= a1, 0 <= b <= b1;
        assert(a * b * 1 == a * b);
    } else {
        lemma_prod1_pair(s.drop_last());
        let t = s.drop_last(); let l = s.last() as int; let l1 = if l == 0 { 1int } else { l };
        assert(s.skip(2).drop_last() =~= t.skip(2));
        assert(t[0] == s[0] && t[1] == s[1]);
        let p = prod1(t); let q = prod1(t.skip(2)); let h = s[0] * s[1]; let e = prod(t.skip(2));
        lemma_prod1_pos(t);
        assert(p <= p * l1) by(nonlinear_arith) requires p >= 1, l1 >= 1;
        assert(q * l1 <= p * l1) by(nonlinear_arith) requires q <= p, l1 >= 1;
        assert((h * e) * l == h * (e * l)) by(nonlinear_arith);
    }
}
pub open spec fn ct_ci(d: Seq<usize>) -> int { if d.len() >= 1 { d[0] as int } else { 1 } }
pub open spec fn ct_co(d: Seq<usize>) -> int { if d.len() >= 2 { d[1] as int } else { 1 } }
pub open spec fn ct_ke(d: Seq<usize>) -> int { if d.len() > 2 { prod(d.skip(2)) } else { 1 } }
pub proof fn lemma_ct(d: Seq<usize>) ensures prod(d) == ct_ci(d) * ct_co(d) * ct_ke(d)
{
    if d.len() >= 2 { lemma_prod1_pair(d); if d.len() == 2 { assert(d.skip(2) =~= Seq::empty()); assert(prod(d.skip(2)) == 1); } }
    else if d.len() == 1 { assert(d.drop_last() =~= Seq::empty()); assert(prod(d.drop_last()) == 1); assert(prod(d) == d.last()); assert(d[0] * 1 * 1 == d[0]); }
}
pub proof fn lemma_ix2(r: int, c: int, rows: int, cols: int) requires 0 <= r < rows, 0 <= c < cols ensures 0 <= r * cols <= r * cols + c < rows * cols
{ assert(0 <= r * cols && r * cols + cols <= rows * cols) by(nonlinear_arith) requires 0 <= r < rows, 0 < cols; }
pub proof fn lemma_tix(len: int, ci: int, co: int, ke: int, i: int, oc: int, k: int)
    requires 0 <= i < ci, 0 <= oc < co, 0 <= k < ke, len == ci * co * ke
    ensures 0 <= i * co <= i * co + oc < ci * co, ci * co <= len, 0 <= (i * co + oc) * ke <= (i * co + oc) * ke + k < len, 0 <= i * ke + k < ci * ke, (i * ke + k) / ke == i, (i * ke + k) % ke == k
{
    lemma_ix2(i, oc, ci, co); lemma_ix2(i * co + oc, k, ci * co, ke); lemma_ix2(i, k, ci, ke);
    assert(ci * co <= ci * co * ke) by(nonlinear_arith) requires ci * co >= 0, ke >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * ke + k, ke, i, k);
}
pub proof fn lemma_rowfit2(len: int, n: int, i: int) requires n > 0, len >= 0, 0 <= i < len / n ensures 0 <= i * n <= (i + 1) * n <= len
{
    let q = len / n;
    assert(q * n <= len) by(nonlinear_arith) requires q == len / n, n > 0;
    assert(0 <= i * n <= (i + 1) * n <= q * n) by(nonlinear_arith) requires 0 <= i < q, n > 0;
}
pub proof fn lemma_rowfit(len: int, o: int, p: int, i: int)
    requires o > 0, len >= 0, p == len / o, len % o == 0, 0 <= i < o
    ensures 0 <= i * p <= (i + 1) * p <= len, o * p == len
{
    assert(o * p == len) by(nonlinear_arith) requires o > 0, p == len / o, len % o == 0;
    assert(0 <= i * p <= (i + 1) * p <= o * p) by(nonlinear_arith) requires 0 <= i < o, p >= 0;
}
pub proof fn lemma_per(len: int, rows: int, cols: int) requires cols > 0, rows >= 0, len == rows * cols ensures len / cols == rows
{ assert(len / cols == rows) by(nonlinear_arith) requires cols > 0, rows >= 0, len == rows * cols; }
/// every `n`-th element from `c`: at least `len / n` of them
pub proof fn lemma_stride(len: int, n: int, c: int) requires 0 <= c < n, len >= 0 ensures c >= len ==> len / n == 0, c < len ==> len / n <= (len - c - 1) / n + 1
{
    let q = len / n;
    assert(q * n <= len < q * n + n) by(nonlinear_arith) requires q == len / n, n > 0;
    if c >= len { assert(q == 0) by(nonlinear_arith) requires q * n <= len, len < n, q * n > len - n, n > 0, len >= 0; } else {
        let z = (len - c - 1) / n; let d = len - c - 1;
        assert(d < z * n + n) by(nonlinear_arith) requires z == d / n, n > 0;
        assert(q <= z + 1) by(nonlinear_arith) requires q * n - n <= d, d < z * n + n, n > 0;
    }
}
pub broadcast proof fn lemma_rmul_pos(a: real, b: real) requires a >= 0real, b >= 0real ensures #[trigger] rmul(a, b) >= 0real { assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
pub broadcast proof fn lemma_rdiv_pos(a: real, b: real) requires a >= 0real, b > 0real ensures #[trigger] rdiv(a, b) >= 0real { lemma_divle(0real, b, a, b); }
pub broadcast proof fn lemma_keeps_mono(l: LayerNode, b: Map<Seq<char>, VF>, k: int, m: real, r: real) requires #[trigger] opb(l, b, k, m), m <= r ensures #[trigger] keeps(l, b, k, r) { }
pub broadcast proof fn lemma_l1_row(v: Seq<real>, o: int, i: int) requires 0 <= i < o ensures #[trigger] l1n(row(v, per(v, o), i)) <= l1n(v)
{ let p = per(v, o); let n = v.len() as int; assert(0 <= i * p <= (i + 1) * p <= n) by(nonlinear_arith) requires 0 <= i < o, p == n / o, n >= 0; lemma_l1_sub(v, i * p, (i + 1) * p); }
pub open spec fn hasv(s: Seq<VF>, x: real) -> bool { exists|p: int| #![trigger s[p]] 0 <= p < s.len() && s[p].r() == x }
pub broadcast proof fn lemma_hasv_push(s: Seq<VF>, y: VF, x: real) ensures #[trigger] hasv(s.push(y), x) == (hasv(s, x) || y.r() == x)
{
    let t = s.push(y);
    if hasv(s, x) { let p = choose|p: int| #![trigger s[p]] 0 <= p < s.len() && s[p].r() == x; assert(t[p].r() == x); }
    if y.r() == x { assert(t[s.len() as int].r() == x); }
    if hasv(t, x) { let p = choose|p: int| #![trigger t[p]] 0 <= p < t.len() && t[p].r() == x; if p < s.len() { assert(s[p].r() == x); } }
}
