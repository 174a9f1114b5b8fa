%%include onnx_base.vc
%%raw
// ---- ONNX sliding-window extents ----------------------------------------------------------------
pub open spec fn win_kernel(l: LayerNode, w: Seq<usize>) -> Seq<usize> {
    match ints_attr(l, "kernel_shape"@) { Some(v) => to_us(v), None => if w.len() >= 3 { w.subrange(2, w.len() as int) } else { seq![1usize] } }
}
pub open spec fn eff_kernel(k: usize, d: usize) -> int { (k - 1) * d + 1 }
pub open spec fn win_dim(x: usize, p0: usize, p1: usize, ek: int, s: usize) -> int { (x + p0 + p1 - ek) / (s as int) + 1 }
pub open spec fn conv_dim_ok(x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, i: int) -> bool {
    k[i] >= 1 && st[i] >= 1 && x[2 + i] + pd[i] + pd[k.len() + i] >= eff_kernel(k[i], dl[i])
}
pub open spec fn conv_upto(x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, n: int) -> bool {
    forall|i: int| #![trigger conv_dim_ok(x, k, st, pd, dl, i)] 0 <= i < n ==> conv_dim_ok(x, k, st, pd, dl, i)
}
pub open spec fn conv_dim(x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, i: int) -> usize {
    win_dim(x[2 + i], pd[i], pd[k.len() + i], eff_kernel(k[i], dl[i]), st[i]) as usize
}
pub open spec fn win_lens(x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>) -> bool {
    x.len() >= 2 + k.len() && pd.len() >= 2 * k.len() && st.len() >= k.len() && dl.len() >= k.len()
}
pub open spec fn conv_shape(x: Seq<usize>, c: usize, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>) -> Seq<usize> {
    Seq::new(2 + k.len(), |i: int| if i == 0 { x[0] } else if i == 1 { c } else { conv_dim(x, k, st, pd, dl, i - 2) })
}
/// automatic padding is refused unless it means "use the pads attribute"
pub open spec fn autopad_ok(l: LayerNode) -> bool {
    match str_attr(l, "auto_pad"@) { None => true, Some(s) => s == ""@ || s == "NOTSET"@ || s == "VALID"@ }
}
pub open spec fn conv_valid(l: LayerNode, m: SMap<Vec<usize>>) -> bool {
    &&& autopad_ok(l) && in_shape(l, m, 0) is Some && in_shape(l, m, 1) is Some
    &&& attr_nonneg(l, "kernel_shape"@) && attr_nonneg(l, "strides"@) && attr_nonneg(l, "pads"@) && attr_nonneg(l, "dilations"@)
    &&& { let x = in_shape(l, m, 0)->Some_0; let w = in_shape(l, m, 1)->Some_0; let k = win_kernel(l, w);
          let st = us_or(l, "strides"@, 1, k.len()); let pd = us_or(l, "pads"@, 0, 2 * k.len()); let dl = us_or(l, "dilations"@, 1, k.len());
          w.len() >= 2 && win_lens(x, k, st, pd, dl) && conv_upto(x, k, st, pd, dl, k.len() as int) }
}
pub open spec fn conv_out(l: LayerNode, m: SMap<Vec<usize>>) -> Seq<usize> {
    let x = in_shape(l, m, 0)->Some_0; let w = in_shape(l, m, 1)->Some_0; let k = win_kernel(l, w);
    conv_shape(x, w[0], k, us_or(l, "strides"@, 1, k.len()), us_or(l, "pads"@, 0, 2 * k.len()), us_or(l, "dilations"@, 1, k.len()))
}
pub open spec fn win_small(l: LayerNode) -> bool {
    ismall(ints_attr(l, "kernel_shape"@)) && (match ints_attr(l, "kernel_shape"@) { Some(w) => w.len() < 0x1_0000_0000, None => true }) && ismall(ints_attr(l, "strides"@)) && ismall(ints_attr(l, "pads"@)) && ismall(ints_attr(l, "dilations"@)) && ismall(ints_attr(l, "output_padding"@))
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::get_shape
ensures oshape(r) == shp(*shapes, name@),
%%include fn_nonneg.vc
%%fn rust/jstprove_onnx/src/shape_inference.rs::ensure_explicit_padding
ensures (r is Ok) == autopad_ok(*layer),
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_conv
requires osmall(in_shape(*layer, *shapes, 0)), osmall(in_shape(*layer, *shapes, 1)), win_small(*layer),
ensures
    (r is Ok) == conv_valid(*layer, *shapes),
    r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, conv_out(*layer, *shapes)),
%%loop L0
out_shape@.len() == 2 + ixL0,
out_shape@ =~= conv_out(*layer, *shapes).take(2 + ixL0),
conv_upto(input_shape@, kernel_shape@, strides@, pads@, dilations@, ixL0 as int),
%%body L0
assert(hint(conv_dim_ok(input_shape@, kernel_shape@, strides@, pads@, dilations@, i as int)));
if kernel_shape@[i as int] >= 1 { lemma_mul30(kernel_shape@[i as int] - 1, dilations@[i as int] as int); lemma_mul30(dilations@[i as int] as int, kernel_shape@[i as int] - 1); }
%%pre L0
assert(kernel_shape@ =~= win_kernel(*layer, weight_shape@));
assert(strides@ =~= us_or(*layer, "strides"@, 1, kernel_shape@.len()));
assert(pads@ =~= us_or(*layer, "pads"@, 0, 2 * kernel_shape@.len()));
assert(dilations@ =~= us_or(*layer, "dilations"@, 1, kernel_shape@.len()));
%%raw
// ---- pooling ------------------------------------------------------------------------------------
/// with ceil_mode the extents must not need rounding (rounding up is refused)
pub open spec fn ceil_dim(l: LayerNode, x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, i: int) -> bool {
    int_or(l, "ceil_mode"@, 0) == 0 || (x[2 + i] + pd[i] + pd[k.len() + i] - eff_kernel(k[i], dl[i])) % (st[i] as int) == 0
}
pub open spec fn ceil_upto(l: LayerNode, x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, n: int) -> bool {
    forall|i: int| #![trigger ceil_dim(l, x, k, st, pd, dl, i)] 0 <= i < n ==> ceil_dim(l, x, k, st, pd, dl, i)
}
pub open spec fn pool_valid(l: LayerNode, xo: Option<Seq<usize>>) -> bool {
    &&& autopad_ok(l) && xo is Some && ints_attr(l, "kernel_shape"@) is Some
    &&& attr_nonneg(l, "kernel_shape"@) && attr_nonneg(l, "strides"@) && attr_nonneg(l, "pads"@) && attr_nonneg(l, "dilations"@)
    &&& { let x = xo->Some_0; let k = to_us(ints_attr(l, "kernel_shape"@)->Some_0); let st = us_or(l, "strides"@, 1, k.len()); let pd = us_or(l, "pads"@, 0, 2 * k.len()); let dl = us_or(l, "dilations"@, 1, k.len());
          win_lens(x, k, st, pd, dl) && conv_upto(x, k, st, pd, dl, k.len() as int) && ceil_upto(l, x, k, st, pd, dl, k.len() as int) }
}
pub open spec fn pool_out(l: LayerNode, xo: Option<Seq<usize>>) -> Seq<usize> {
    let x = xo->Some_0; let k = to_us(ints_attr(l, "kernel_shape"@)->Some_0);
    conv_shape(x, x[1], k, us_or(l, "strides"@, 1, k.len()), us_or(l, "pads"@, 0, 2 * k.len()), us_or(l, "dilations"@, 1, k.len()))
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_maxpool
requires osmall(oshape(input_shape)), win_small(*layer),
ensures
    (r is Ok) == pool_valid(*layer, oshape(input_shape)),
    r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, pool_out(*layer, oshape(input_shape))),
%%loop L0
forall|j: int| #![trigger kernel@[j]] 0 <= j < ixL0 ==> kernel@[j] >= 1,
%%loop L1
out_shape@.len() == 2 + ixL1,
out_shape@ =~= pool_out(*layer, oshape(gp1)).take(2 + ixL1),
conv_upto(input_shape@, kernel@, strides@, pads@, dilations@, ixL1 as int),
ceil_upto(*layer, input_shape@, kernel@, strides@, pads@, dilations@, ixL1 as int),
%%body L0
assert(hint(conv_dim_ok(input_shape@, kernel@, us_or(*layer, "strides"@, 1, kernel@.len()), us_or(*layer, "pads"@, 0, 2 * kernel@.len()), us_or(*layer, "dilations"@, 1, kernel@.len()), i as int)));
%%body L1
assert(hint(conv_dim_ok(input_shape@, kernel@, strides@, pads@, dilations@, i as int)));
assert(hint(ceil_dim(*layer, input_shape@, kernel@, strides@, pads@, dilations@, i as int)));
if kernel@[i as int] >= 1 { lemma_mul30(kernel@[i as int] - 1, dilations@[i as int] as int); lemma_mul30(dilations@[i as int] as int, kernel@[i as int] - 1); }
%%pre L1
assert(strides@ =~= us_or(*layer, "strides"@, 1, kernel@.len()));
assert(pads@ =~= us_or(*layer, "pads"@, 0, 2 * kernel@.len()));
assert(dilations@ =~= us_or(*layer, "dilations"@, 1, kernel@.len()));
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_global_averagepool
ensures
    (r is Ok) == (input_shape is Some && input_shape->Some_0@.len() >= 3),
    r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, Seq::new(input_shape->Some_0@.len(), |i: int| if i < 2 { input_shape->Some_0@[i] } else { 1usize })),

%%raw
// ---- transposed convolution -----------------------------------------------------------------------
pub open spec fn ct_pad(pd: Seq<usize>, n: int, i: int) -> int { if pd.len() >= 2 * n { pd[i] + pd[n + i] } else { 0 } }
#[verifier::opaque]
pub open spec fn ct_val(x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, op: Seq<usize>, i: int) -> int {
    st[i] * (x[2 + i] - 1) + eff_kernel(k[i], dl[i]) - ct_pad(pd, k.len() as int, i) + op[i]
}
#[verifier::opaque]
pub open spec fn ct_dim_ok(x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, op: Seq<usize>, i: int) -> bool {
    x[2 + i] >= 1 && k[i] >= 1 && ct_val(x, k, st, pd, dl, op, i) > 0
}
pub open spec fn ct_upto(x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, op: Seq<usize>, n: int) -> bool {
    forall|i: int| #![trigger ct_dim_ok(x, k, st, pd, dl, op, i)] 0 <= i < n ==> ct_dim_ok(x, k, st, pd, dl, op, i)
}
pub open spec fn ct_c(l: LayerNode, w: Seq<usize>) -> int { w[1] * int_or(l, "group"@, 1) }
pub open spec fn ct_attrs_ok(l: LayerNode) -> bool {
    int_or(l, "group"@, 1) >= 1 && attr_nonneg(l, "kernel_shape"@) && attr_nonneg(l, "strides"@) && attr_nonneg(l, "pads"@) && attr_nonneg(l, "dilations"@) && attr_nonneg(l, "output_padding"@)
}
pub open spec fn ct_dims_ok(l: LayerNode, x: Seq<usize>, k: Seq<usize>, st: Seq<usize>, pd: Seq<usize>, dl: Seq<usize>, op: Seq<usize>) -> bool {
    let n = k.len();
    x.len() >= 2 + n && match ints_attr(l, "output_shape"@) {
        Some(os) => all_nonneg(os) && os.len() == n,
        None => st.len() == n && (pd.len() == 0 || pd.len() == 2 * n) && dl.len() == n && op.len() == n && ct_upto(x, k, st, pd, dl, op, n as int),
    }
}
pub open spec fn ct_valid2(l: LayerNode, x: Seq<usize>, w: Seq<usize>) -> bool {
    let k = win_kernel(l, w);
    autopad_ok(l) && w.len() >= 2 && ct_attrs_ok(l) && ct_dims_ok(l, x, k, us_or(l, "strides"@, 1, k.len()), us_or(l, "pads"@, 0, 2 * k.len()), us_or(l, "dilations"@, 1, k.len()), us_or(l, "output_padding"@, 0, k.len()))
}
pub open spec fn ct_valid(l: LayerNode, m: SMap<Vec<usize>>) -> bool {
    match (in_shape(l, m, 0), in_shape(l, m, 1)) { (Some(x), Some(w)) => ct_valid2(l, x, w), _ => false }
}
pub open spec fn ct_out(l: LayerNode, m: SMap<Vec<usize>>) -> Seq<usize> {
    let x = in_shape(l, m, 0)->Some_0; let w = in_shape(l, m, 1)->Some_0; let k = win_kernel(l, w); let n = k.len();
    let st = us_or(l, "strides"@, 1, n); let pd = us_or(l, "pads"@, 0, 2 * n); let dl = us_or(l, "dilations"@, 1, n); let op = us_or(l, "output_padding"@, 0, n);
    Seq::new(2 + n, |i: int| if i == 0 { x[0] } else if i == 1 { ct_c(l, w) as usize } else {
        match ints_attr(l, "output_shape"@) { Some(os) => os[i - 2] as usize, None => ct_val(x, k, st, pd, dl, op, i - 2) as usize } })
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_conv_transpose
requires osmall(in_shape(*layer, *shapes, 0)), osmall(in_shape(*layer, *shapes, 1)), win_small(*layer), int_or(*layer, "group"@, 1) <= 0x4000_0000,
ensures
    (r is Ok) == ct_valid(*layer, *shapes),
    r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, ct_out(*layer, *shapes)),
%%entry
match in_shape(*layer, *shapes, 1) { Some(w) => { if w.len() >= 2 && int_or(*layer, "group"@, 1) >= 1 { lemma_mul30(w[1] as int, int_or(*layer, "group"@, 1) as int); } } None => {} }
%%loop L0
out_shape@.len() == 2 + ixL0,
out_shape@ =~= ct_out(*layer, *shapes).take(2 + ixL0),
ct_upto(input_shape@, kernel_shape@, strides@, pads@, dilations@, output_padding@, ixL0 as int),
%%body L0
assert(ct_val(input_shape@, kernel_shape@, strides@, pads@, dilations@, output_padding@, i as int) == strides@[i as int] * (input_shape@[2 + i] - 1) + (kernel_shape@[i as int] - 1) * dilations@[i as int] + 1 - (if pads@.len() >= 2 * kernel_shape@.len() { pads@[i as int] + pads@[kernel_shape@.len() + i] } else { 0 }) + output_padding@[i as int]) by { reveal(ct_val); }
assert(ct_dim_ok(input_shape@, kernel_shape@, strides@, pads@, dilations@, output_padding@, i as int) == (input_shape@[2 + i] >= 1 && kernel_shape@[i as int] >= 1 && ct_val(input_shape@, kernel_shape@, strides@, pads@, dilations@, output_padding@, i as int) > 0)) by { reveal(ct_dim_ok); }
if kernel_shape@[i as int] >= 1 { lemma_mul30(kernel_shape@[i as int] - 1, dilations@[i as int] as int); lemma_mul30(dilations@[i as int] as int, kernel_shape@[i as int] - 1); }
if input_shape@[2 + i] >= 1 { lemma_mul30(strides@[i as int] as int, input_shape@[2 + i] - 1); }
%%pre L0
assert(kernel_shape@ =~= win_kernel(*layer, weight_shape@));
assert(strides@ =~= us_or(*layer, "strides"@, 1, kernel_shape@.len()));
assert(pads@ =~= us_or(*layer, "pads"@, 0, 2 * kernel_shape@.len()));
assert(dilations@ =~= us_or(*layer, "dilations"@, 1, kernel_shape@.len()));
assert(output_padding@ =~= us_or(*layer, "output_padding"@, 0, kernel_shape@.len()));
%%pre A0
assert(kernel_shape@ =~= win_kernel(*layer, weight_shape@));
assert(strides@ =~= us_or(*layer, "strides"@, 1, kernel_shape@.len()));
assert(pads@ =~= us_or(*layer, "pads"@, 0, 2 * kernel_shape@.len()));
assert(dilations@ =~= us_or(*layer, "dilations"@, 1, kernel_shape@.len()));
assert(output_padding@ =~= us_or(*layer, "output_padding"@, 0, kernel_shape@.len()));
