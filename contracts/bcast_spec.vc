%%raw
// ---- multidirectional (numpy) broadcasting, aligned at the last axis ---------------------------
pub open spec fn mx(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn bdim(s: Seq<usize>, n: int, i: int) -> usize { if i < n - s.len() { 1usize } else { s[i - (n - s.len())] } }
pub open spec fn bc_rank(a: Seq<usize>, b: Seq<usize>) -> nat { mx(a.len() as int, b.len() as int) as nat }
pub open spec fn bc_dim_ok(a: Seq<usize>, b: Seq<usize>, i: int) -> bool {
    let n = bc_rank(a, b) as int; bdim(a, n, i) == bdim(b, n, i) || bdim(a, n, i) == 1 || bdim(b, n, i) == 1
}
pub open spec fn bc_upto(a: Seq<usize>, b: Seq<usize>, k: int) -> bool { forall|i: int| #![trigger bc_dim_ok(a, b, i)] 0 <= i < k ==> bc_dim_ok(a, b, i) }
pub open spec fn bc_ok(a: Seq<usize>, b: Seq<usize>) -> bool { bc_upto(a, b, bc_rank(a, b) as int) }
pub open spec fn bc_dim(a: Seq<usize>, b: Seq<usize>, i: int) -> usize {
    let n = bc_rank(a, b) as int; if bdim(a, n, i) == 1 { bdim(b, n, i) } else { bdim(a, n, i) }
}
pub open spec fn bc(a: Seq<usize>, b: Seq<usize>) -> Seq<usize> { Seq::new(bc_rank(a, b), |i: int| bc_dim(a, b, i)) }
// laws of the specification itself: the result does not depend on the order of the operands,
// a shape broadcasts with itself, and each operand broadcasts to the result
pub proof fn lemma_bc_comm(a: Seq<usize>, b: Seq<usize>)
    ensures bc_ok(a, b) == bc_ok(b, a), bc_ok(a, b) ==> bc(a, b) =~= bc(b, a)
{
    assert forall|i: int| bc_dim_ok(a, b, i) == bc_dim_ok(b, a, i) by {}
    if bc_ok(a, b) { assert forall|i: int| 0 <= i < bc_rank(a, b) implies bc_dim_ok(b, a, i) by { assert(bc_dim_ok(a, b, i)); } }
    if bc_ok(b, a) { assert forall|i: int| 0 <= i < bc_rank(a, b) implies bc_dim_ok(a, b, i) by { assert(bc_dim_ok(b, a, i)); } }
    if bc_ok(a, b) { assert forall|i: int| 0 <= i < bc_rank(a, b) implies bc(a, b)[i] == bc(b, a)[i] by { assert(bc_dim_ok(a, b, i)); } }
}
pub proof fn lemma_bc_self(a: Seq<usize>) ensures bc_ok(a, a), bc(a, a) =~= a {}
