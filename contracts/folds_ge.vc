%%include fold_spec.vc
%%raw
// ---- gather-elements of a constant ---------------------------------------------------------------
#[verifier::opaque]
pub open spec fn stride(s: Seq<usize>, i: int) -> int { prod(s.skip(i + 1)) }
pub open spec fn ge_rem(f: int, s: Seq<usize>, d: int) -> int decreases d { if d <= 0 { f } else { ge_rem(f, s, d - 1) % stride(s, d - 1) } }
/// coordinate of flat position f along axis d
pub open spec fn ge_coord(f: int, s: Seq<usize>, d: int) -> int { ge_rem(f, s, d) / stride(s, d) }
pub open spec fn ge_at<T>(o: Seq<T>, v: Seq<T>, iv: Seq<i64>, ds: Seq<usize>, js: Seq<usize>, ax: int, f: int) -> bool { ax_in(iv[f], ds[ax] as int) && o[f] == v[ge_flat(f, nax(iv[f], ds[ax] as int), ds, js, ax, ds.len() as int)] }
pub open spec fn ge_mat(x: usize, iv: Seq<i64>, ds: Seq<usize>, js: Seq<usize>, ax: int, f: int) -> bool { ax_in(iv[f], ds[ax] as int) && x < prod(ds) && x == ge_flat(f, nax(iv[f], ds[ax] as int), ds, js, ax, ds.len() as int) }
/// flat position in the data: the coordinates of f, with the one along `ax` replaced by ix
pub open spec fn ge_flat(f: int, ix: int, ds: Seq<usize>, js: Seq<usize>, ax: int, d: int) -> int decreases d {
    if d <= 0 { 0 } else { ge_flat(f, ix, ds, js, ax, d - 1) + (if d - 1 == ax { ix } else { ge_coord(f, js, d - 1) }) * stride(ds, d - 1) }
}
pub open spec fn ge_vals<T>(o: Seq<T>, v: Seq<T>, iv: Seq<i64>, ds: Seq<usize>, js: Seq<usize>, ax: int) -> bool {
    o.len() == prod(js) && forall|f: int| #![trigger o[f]] #![trigger ge_at(o, v, iv, ds, js, ax, f)] 0 <= f < o.len() ==> ge_at(o, v, iv, ds, js, ax, f)
}
pub open spec fn ge_map(m: Seq<usize>, iv: Seq<i64>, ds: Seq<usize>, js: Seq<usize>, ax: int, n: int) -> bool {
    m.len() == n && forall|f: int| #![trigger m[f]] 0 <= f < n ==> ge_mat(m[f], iv, ds, js, ax, f)
}
pub open spec fn ge_same(ds: Seq<usize>, js: Seq<usize>, ax: int, n: int) -> bool { forall|i: int| #![trigger ds[i]] #![trigger js[i]] 0 <= i < n && i != ax ==> ds[i] == js[i] }
pub proof fn lemma_stride(s: Seq<usize>, i: int) requires 0 <= i < s.len(), prod1(s) <= 0x4000_0000
    ensures stride(s, i - 1) == s[i] * stride(s, i), 0 <= stride(s, i) <= 0x4000_0000, 0 <= stride(s, i - 1) <= 0x4000_0000, stride(s, -1) == prod(s), i == s.len() - 1 ==> stride(s, i) == 1,
        prod(s) > 0 ==> stride(s, i) > 0
{
    reveal(stride);
    let y = s.skip(i); lemma_prod1_split(y, 1); assert(y.skip(1) =~= s.skip(i + 1)); assert(y.take(1) =~= seq![s[i]]); lemma_prod_one(s[i]);
    lemma_prod1_split(s, i + 1); lemma_prod1_split(s, i); lemma_prod1_pos(s.skip(i + 1)); lemma_prod1_pos(s.skip(i)); assert(s.skip(0) =~= s);
    if i == s.len() - 1 { assert(s.skip(i + 1) =~= Seq::<usize>::empty()); }
    if prod(s) > 0 && stride(s, i) == 0 { assert(prod(s.take(i + 1)) * 0 == 0); }
}
/// one step of the coordinate walk stays inside both tensors
pub proof fn lemma_ge_step(part: int, rem: int, c: int, ds: Seq<usize>, js: Seq<usize>, d: int)
    requires 0 <= d < ds.len(), ds.len() == js.len(), prod1(ds) <= 0x4000_0000, prod1(js) <= 0x4000_0000, prod(js) > 0,
        0 <= part, part + stride(ds, d - 1) <= prod(ds), 0 <= rem < stride(js, d - 1), 0 <= c < ds[d]
    ensures 0 <= c * stride(ds, d) <= 0x4000_0000, part + c * stride(ds, d) + stride(ds, d) <= prod(ds), stride(js, d) > 0, 0 <= rem % stride(js, d) < stride(js, d), 0 <= rem / stride(js, d) < js[d],
{
    lemma_stride(ds, d); lemma_stride(js, d);
    let sd = stride(ds, d); let sj = stride(js, d);
    assert(c * sd + sd <= ds[d] * sd) by(nonlinear_arith) requires c + 1 <= ds[d], sd >= 0;
    assert(0 <= c * sd) by(nonlinear_arith) requires c >= 0, sd >= 0;
    lemma_prod1_pos(ds);
    assert(0 <= rem / sj < js[d]) by(nonlinear_arith) requires 0 <= rem < js[d] * sj, sj > 0;
    assert(0 <= rem % sj < sj) by(nonlinear_arith) requires sj > 0;
}
pub proof fn lemma_ge_push(m: Seq<usize>, x: usize, iv: Seq<i64>, ds: Seq<usize>, js: Seq<usize>, ax: int, n: int)
    requires ge_map(m, iv, ds, js, ax, n)
    ensures ge_mat(x, iv, ds, js, ax, n) ==> ge_map(m.push(x), iv, ds, js, ax, n + 1)
{ let p = m.push(x);
  if ge_mat(x, iv, ds, js, ax, n) {
  assert forall|f: int| #![trigger p[f]] 0 <= f < n + 1 implies ge_mat(p[f], iv, ds, js, ax, f) by { if f < n { assert(p[f] == m[f]); } } } }
pub proof fn lemma_ge_gather<T>(m: Seq<usize>, o: Seq<T>, v: Seq<T>, iv: Seq<i64>, ds: Seq<usize>, js: Seq<usize>, ax: int)
    requires ge_map(m, iv, ds, js, ax, prod(js)), o.len() == m.len(), forall|f: int| #![trigger o[f]] 0 <= f < o.len() ==> o[f] == v[m[f] as int]
    ensures ge_vals(o, v, iv, ds, js, ax)
{ assert(o.len() == prod(js)); assert forall|f: int| #![trigger o[f]] #![trigger ge_at(o, v, iv, ds, js, ax, f)] 0 <= f < o.len() implies ge_at(o, v, iv, ds, js, ax, f) by { let x = m[f]; assert(ge_mat(x, iv, ds, js, ax, f)); } }
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_gather_elements
%%attr #[verifier::spinoff_prover]
requires
    kwf(*layer, 0, *initializers, *constant_tensors), kwf(*layer, 1, *initializers, *constant_tensors),
ensures
    r is Some ==> ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let i = kin(*layer, 1, *initializers, *constant_tensors);
      t is Some && i is Some && ({ let t = t->Some_0; let i = i->Some_0; let ds = td_shape(t); let js = td_shape(i); let ax = g_ax(*layer, ds); let o = r->Some_0;
       &&& ds.len() == js.len() && 0 <= ax < ds.len() && ge_same(ds, js, ax, ds.len() as int)
       &&& o.dims@ =~= i.dims@ && o.data_type == t.data_type
       &&& (t.data_type == 1 || t.data_type == 11) ==> o.int_data@.len() == 0 && ge_vals(o.float_data@, t.float_data@, td_ints(i), ds, js, ax)
       &&& !(t.data_type == 1 || t.data_type == 11) ==> o.float_data@.len() == 0 && ge_vals(o.int_data@, t.int_data@, td_ints(i), ds, js, ax) }) }),
%%entry
lemma_neg_casts();
match kin(*layer, 0, *initializers, *constant_tensors) { Some(t) => { lemma_prod1_pos(td_shape(t)); } None => {} }
match kin(*layer, 1, *initializers, *constant_tensors) { Some(t) => { lemma_prod1_pos(td_shape(t)); } None => {} }
%%loop L0
ge_same(data_shape@, indices_shape@, axis as int, ixL0 as int),
%%pre L1
lemma_stride(data_shape@, rank - 1);
%%loop L1
data_strides@.len() == rank,
forall|j: int| #![trigger data_strides@[j]] ixL1 <= j < rank ==> data_strides@[j] == stride(data_shape@, j),
%%body L1
lemma_stride(data_shape@, i + 1); lemma_stride(data_shape@, i as int);
assert(data_strides@[i + 1] == stride(data_shape@, i + 1)); assert(data_strides@[i + 1] * data_shape@[i + 1] == stride(data_shape@, i as int)) by(nonlinear_arith) requires data_strides@[i + 1] == stride(data_shape@, i + 1), stride(data_shape@, i as int) == data_shape@[i + 1] * stride(data_shape@, i + 1);
assert(0 <= data_strides@[i + 1] * data_shape@[i + 1] <= 0x4000_0000);
%%pre L2
lemma_stride(indices_shape@, rank - 1);
%%loop L2
indices_strides@.len() == rank,
forall|j: int| #![trigger indices_strides@[j]] ixL2 <= j < rank ==> indices_strides@[j] == stride(indices_shape@, j),
%%body L2
lemma_stride(indices_shape@, i + 1); lemma_stride(indices_shape@, i as int);
assert(indices_strides@[i + 1] == stride(indices_shape@, i + 1)); assert(indices_strides@[i + 1] * indices_shape@[i + 1] == stride(indices_shape@, i as int)) by(nonlinear_arith) requires indices_strides@[i + 1] == stride(indices_shape@, i + 1), stride(indices_shape@, i as int) == indices_shape@[i + 1] * stride(indices_shape@, i + 1);
assert(0 <= indices_strides@[i + 1] * indices_shape@[i + 1] <= 0x4000_0000);
%%loop L3
ge_map(index_map@, indices_vals@, data_shape@, indices_shape@, axis as int, ixL3 as int),
%%post L3
assert(ge_map(index_map@, indices_vals@, data_shape@, indices_shape@, axis as int, total as int)); assert(total == prod(indices_shape@));
%%pre L4
lemma_stride(data_shape@, 0); lemma_stride(indices_shape@, 0);
%%loop L4
remaining == ge_rem(flat_idx as int, indices_shape@, ixL4 as int),
data_flat_idx == ge_flat(flat_idx as int, nax(idx_val, data_shape@[axis as int] as int), data_shape@, indices_shape@, axis as int, ixL4 as int),
data_flat_idx + stride(data_shape@, ixL4 - 1) <= prod(data_shape@),
0 <= remaining < stride(indices_shape@, ixL4 - 1),
ixL4 > axis ==> ax_in(idx_val, data_shape@[axis as int] as int),
%%body L4
lemma_stride(indices_shape@, dim as int); lemma_stride(data_shape@, dim as int);
let ix = nax(idx_val, data_shape@[axis as int] as int);
let sj = stride(indices_shape@, dim as int); let rem = remaining as int;
if data_shape@[dim as int] > 0 { lemma_ge_step(data_flat_idx as int, rem, 0, data_shape@, indices_shape@, dim as int); }
if dim == axis { if ax_in(idx_val, data_shape@[axis as int] as int) { lemma_ge_step(data_flat_idx as int, rem, ix, data_shape@, indices_shape@, dim as int); } }
else { assert(data_shape@[dim as int] == indices_shape@[dim as int]); assert(0 <= rem / sj < indices_shape@[dim as int]) by(nonlinear_arith) requires 0 <= rem < indices_shape@[dim as int] * sj, sj > 0;
 lemma_ge_step(data_flat_idx as int, rem, rem / sj, data_shape@, indices_shape@, dim as int); }
%%post L4
assert(ge_map(index_map@, indices_vals@, data_shape@, indices_shape@, axis as int, flat_idx as int));
lemma_ge_push(index_map@, data_flat_idx, indices_vals@, data_shape@, indices_shape@, axis as int, flat_idx as int);
lemma_stride(data_shape@, rank - 1);
%%post A1
lemma_ge_gather(index_map@, outA1@, data_vals@, indices_vals@, data_shape@, indices_shape@, axis as int);
%%post A2
lemma_ge_gather(index_map@, outA2@, data_vals@, indices_vals@, data_shape@, indices_shape@, axis as int);

