%%fn rust/jstprove_onnx/src/shape_inference.rs::nonneg_to_usize
ensures
    (r is Ok) == all_nonneg(vals@),
    r is Ok ==> r->Ok_0@ == to_us(vals@),
%%post A0
assert(errA0 is None ==> outA0@ =~= to_us(vals@));
