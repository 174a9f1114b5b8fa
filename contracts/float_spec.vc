%%type *i as f64 => vx_i2f(*i)
%%raw
pub uninterp spec fn i2f(i: i64) -> f64;
#[verifier::external_body]
pub fn vx_i2f(i: i64) -> (r: f64) ensures r == i2f(i) { i as f64 }
pub open spec fn td_floats(t: TensorData) -> Seq<f64> { if t.float_data@.len() > 0 { t.float_data@ } else { Seq::new(t.int_data@.len(), |i: int| i2f(t.int_data@[i])) } }
%%fn rust/jstprove_onnx/src/parser.rs::TensorData::as_f64_vec
%%opt noauto A0
ensures r@ == td_floats(*self),
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> outA0@[jj] == i2f(self.int_data@[jj]),
%%post A0
assert(outA0@ =~= td_floats(*self));
