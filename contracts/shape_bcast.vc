%%include onnx_base.vc
%%include bcast_spec.vc
%%include fn_basic.vc
%%include fn_bcast.vc
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_broadcast_binary
ensures
    ({ let a = in_shape(*layer, *shapes, 0); let b = in_shape(*layer, *shapes, 1);
       match (a, b) {
           (Some(x), Some(y)) => (r is Ok) == bc_ok(x, y) && (r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, bc(x, y))),
           (Some(x), None) => r is Ok && outs_ok(r->Ok_0@, layer.outputs@, x),
           (None, Some(y)) => r is Ok && outs_ok(r->Ok_0@, layer.outputs@, y),
           (None, None) => r is Err,
       } }),
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_where
ensures
    ({ let c = in_shape(*layer, *shapes, 0); let x = in_shape(*layer, *shapes, 1); let y = in_shape(*layer, *shapes, 2);
       &&& (r is Ok) == (c is Some && x is Some && y is Some && bc_ok(c->Some_0, x->Some_0) && bc_ok(bc(c->Some_0, x->Some_0), y->Some_0))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, bc(bc(c->Some_0, x->Some_0), y->Some_0)) }),
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_expand
ensures
    ({ let x = in_shape(*layer, *shapes, 0); let t = konst_ints(inp(*layer, 1), *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && t is Some && all_nonneg(t->Some_0) && bc_ok(x->Some_0, to_us(t->Some_0)))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, bc(x->Some_0, to_us(t->Some_0))) }),
%%post A0
assert(outA0@ =~= to_us(td_ints(*shape_td)));
