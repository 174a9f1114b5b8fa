%%fn rust/jstprove_onnx/src/shape_inference.rs::select_values
ensures
    ({ let n = nvals(*td); let ok = forall|i: int| #![trigger positions@[i]] 0 <= i < positions@.len() ==> positions@[i] < n;
       &&& (r is Some) == ok
       &&& r is Some ==> sel_is(*td, positions@, r->Some_0.0@, r->Some_0.1@) }),
%%loop A0
!errA0 ==> forall|j: int| #![trigger positions@[j]] 0 <= j < ixA0 ==> positions@[j] < td.float_data@.len(),
!errA0 ==> forall|j: int| #![trigger outA0@[j]] 0 <= j < ixA0 ==> outA0@[j] == td.float_data@[positions@[j] as int],
errA0 ==> exists|j: int| #![trigger positions@[j]] 0 <= j < positions@.len() && positions@[j] >= td.float_data@.len(),
%%body A0
assert(hint(positions@[ixA0 as int] == 0));
%%loop A1
!errA1 ==> forall|j: int| #![trigger positions@[j]] 0 <= j < ixA1 ==> positions@[j] < td.int_data@.len(),
!errA1 ==> forall|j: int| #![trigger outA1@[j]] 0 <= j < ixA1 ==> outA1@[j] == td.int_data@[positions@[j] as int],
errA1 ==> exists|j: int| #![trigger positions@[j]] 0 <= j < positions@.len() && positions@[j] >= td.int_data@.len(),
%%body A1
assert(hint(positions@[ixA1 as int] == 0));
%%raw
/// the selected values, in the representation the constant is stored in
pub open spec fn sel_is(t: TensorData, p: Seq<usize>, f: Seq<f64>, i: Seq<i64>) -> bool {
    if t.int_data@.len() > 0 { f.len() == 0 && i =~= Seq::new(p.len(), |k: int| t.int_data@[p[k] as int]) }
    else { i.len() == 0 && f =~= Seq::new(p.len(), |k: int| t.float_data@[p[k] as int]) }
}
