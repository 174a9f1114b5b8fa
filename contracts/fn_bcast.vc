%%fn rust/jstprove_onnx/src/shape_inference.rs::broadcast_shapes
ensures
    (r is Ok) == bc_ok(a@, b@),
    r is Ok ==> r->Ok_0@ == bc(a@, b@),
%%loop L0
result@.len() == ixL0,
result@ =~= bc(a@, b@).take(ixL0 as int),
bc_upto(a@, b@, ixL0 as int),
%%body L0
assert(hint(bc_dim_ok(a@, b@, i as int)));
%%post L0
assert(result@ =~= bc(a@, b@));
