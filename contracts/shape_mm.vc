%%include onnx_base.vc
%%include bcast_spec.vc
%%include fn_basic.vc
%%include fn_bcast.vc
%%raw
// ---- matrix products ----------------------------------------------------------------------------
pub open spec fn mat_a(s: Seq<usize>) -> Seq<usize> { if s.len() == 1 { seq![1usize, s[0]] } else { s } }
pub open spec fn mat_b(s: Seq<usize>) -> Seq<usize> { if s.len() == 1 { seq![s[0], 1usize] } else { s } }
pub open spec fn flag(l: LayerNode, n: Seq<char>) -> bool { int_or(l, n, 0) != 0 }
pub open spec fn gemm_m(l: LayerNode, a: Seq<usize>) -> usize { if flag(l, "transA"@) { mat_a(a)[1] } else { mat_a(a)[0] } }
pub open spec fn gemm_ka(l: LayerNode, a: Seq<usize>) -> usize { if flag(l, "transA"@) { mat_a(a)[0] } else { mat_a(a)[1] } }
pub open spec fn gemm_kb(l: LayerNode, b: Seq<usize>) -> usize { if flag(l, "transB"@) { mat_b(b)[1] } else { mat_b(b)[0] } }
pub open spec fn gemm_n(l: LayerNode, b: Seq<usize>) -> usize { if flag(l, "transB"@) { mat_b(b)[0] } else { mat_b(b)[1] } }
pub open spec fn gemm_ok(l: LayerNode, a: Seq<usize>, b: Seq<usize>) -> bool {
    1 <= a.len() <= 2 && 1 <= b.len() <= 2 && gemm_ka(l, a) == gemm_kb(l, b)
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_gemm
ensures
    ({ let a = in_shape(*layer, *shapes, 0); let b = in_shape(*layer, *shapes, 1);
       &&& (r is Ok) == (a is Some && b is Some && gemm_ok(*layer, a->Some_0, b->Some_0))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, seq![gemm_m(*layer, a->Some_0), gemm_n(*layer, b->Some_0)]) }),
%%pre A0
assert(out_shape@ =~= seq![gemm_m(*layer, a_shape@), gemm_n(*layer, b_shape@)]);
%%raw
pub open spec fn batch_of(s: Seq<usize>) -> Seq<usize> { s.take(s.len() - 2) }
pub open spec fn mm_ok(a: Seq<usize>, b: Seq<usize>) -> bool {
    a.len() >= 1 && b.len() >= 1 && { let x = mat_a(a); let y = mat_b(b); x[x.len() - 1] == y[y.len() - 2] && bc_ok(batch_of(x), batch_of(y)) }
}
/// batch axes broadcast; the axis added to a 1-D operand is removed again
pub open spec fn mm_out(a: Seq<usize>, b: Seq<usize>) -> Seq<usize> {
    let x = mat_a(a); let y = mat_b(b);
    bc(batch_of(x), batch_of(y)) + (if a.len() == 1 { Seq::<usize>::empty() } else { seq![x[x.len() - 2]] }) + (if b.len() == 1 { Seq::<usize>::empty() } else { seq![y[y.len() - 1]] })
}
pub proof fn lemma_bc_empty(a: Seq<usize>)
    ensures bc_ok(Seq::<usize>::empty(), a), bc(Seq::<usize>::empty(), a) =~= a, bc_ok(a, Seq::<usize>::empty()), bc(a, Seq::<usize>::empty()) =~= a {}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_matmul
ensures
    ({ let a = in_shape(*layer, *shapes, 0); let b = in_shape(*layer, *shapes, 1);
       &&& (r is Ok) == (a is Some && b is Some && mm_ok(a->Some_0, b->Some_0))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, mm_out(a->Some_0, b->Some_0)) }),
%%entry
match (in_shape(*layer, *shapes, 0), in_shape(*layer, *shapes, 1)) {
    (Some(a), Some(b)) => {
        let x = mat_a(a); let y = mat_b(b);
        if x.len() >= 2 && y.len() >= 2 {
            lemma_bc_empty(batch_of(x)); lemma_bc_empty(batch_of(y));
            if x.len() == 2 { assert(batch_of(x) =~= Seq::<usize>::empty()); }
            if y.len() == 2 { assert(batch_of(y) =~= Seq::<usize>::empty()); }
        }
    }
    _ => {}
}
%%pre A0
assert(out_shape@ =~= mm_out(a_shape@, b_shape@));
