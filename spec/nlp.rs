verus! {
pub trait RtToPrim { spec fn iv(&self) -> int; fn to_usize(&self) -> (r: Option<usize>) ensures match r { Some(v) => v == self.iv(), None => self.iv() < 0 || self.iv() > usize::MAX };
    fn to_i32(&self) -> (r: Option<i32>) ensures match r { Some(v) => v == self.iv(), None => self.iv() < i32::MIN || self.iv() > i32::MAX }; }
impl RtToPrim for usize { open spec fn iv(&self) -> int { *self as int } #[verifier::external_body] fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() } #[verifier::external_body] fn to_i32(&self) -> (r: Option<i32>) { unimplemented!() } }
impl RtToPrim for i32 { open spec fn iv(&self) -> int { *self as int } #[verifier::external_body] fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() } #[verifier::external_body] fn to_i32(&self) -> (r: Option<i32>) { unimplemented!() } }
// ------------------------------------------------------------- the problem behind the callbacks
pub open spec fn same_pat(a: CooMat, b: CooMat) -> bool { a.row_inds@ == b.row_inds@ && a.col_inds@ == b.col_inds@ && a.shape == b.shape && a.data@.len() == b.data@.len() }
pub open spec fn same_pats(a: Seq<CooMat>, b: Seq<CooMat>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_pat(#[trigger] a[i], b[i]) }
pub open spec fn same_shape(s: EvState, t: EvState) -> bool { s.gphi.len() == t.gphi.len() && s.f.len() == t.f.len() && same_pat(s.hphi, t.hphi) && same_pat(s.j, t.j) && same_pats(s.h, t.h) }
/// the user's function can be called at any point and only writes values
pub open spec fn good_fn(e: EvalFn, s: EvState) -> bool {
    &&& forall|s1: EvState, x: Seq<F64>| same_shape(s1, s) && x.len() == s.gphi.len() ==> #[trigger] ev_pre(e, s1, x)
    &&& forall|s1: EvState, x: Seq<F64>, s2: EvState| same_shape(s1, s) && x.len() == s.gphi.len() && #[trigger] ev_rel(e, s1, x, s2) ==> same_shape(s2, s)
}
pub open spec fn inside(m: CooMat) -> bool { m.wf() && m.inb() && m.inb_col() }
pub open spec fn nlp_nx(p: ProblemNlp) -> int { p.base.a.shape.1 as int }
pub open spec fn nlp_na(p: ProblemNlp) -> int { p.base.b@.len() as int }
pub open spec fn nlp_nf(p: ProblemNlp) -> int { p.base.f@.len() as int }
pub open spec fn nnzj(p: ProblemNlp) -> int { (p.base.a.data@.len() + p.base.j.data@.len()) as int }
pub open spec fn nnzh(p: ProblemNlp) -> int { (p.base.hphi.data@.len() + p.base.hcomb.data@.len()) as int }
pub open spec fn nlp_ok(p: ProblemNlp) -> bool {
    &&& p.wf() && p.base.hc_ok() && p.base.j.shape.1 == p.base.a.shape.1
    &&& inside(p.base.a) && inside(p.base.j) && inside(p.base.hphi) && inside(p.base.hcomb)
    &&& nlp_nx(p) <= i32::MAX && nlp_na(p) + nlp_nf(p) <= i32::MAX && nnzj(p) <= i32::MAX && nnzh(p) <= i32::MAX
    &&& good_fn(p.base.eval_fn, p.base.state())
}
/// the same problem: only buffers differ
pub open spec fn nlp_same(p: ProblemNlp, q: ProblemNlp) -> bool {
    &&& q.base.x0 == p.base.x0 && q.base.a == p.base.a && q.base.b == p.base.b && q.base.l == p.base.l && q.base.u == p.base.u && q.base.p == p.base.p && q.base.eval_fn == p.base.eval_fn
    &&& same_pat(q.base.hcomb, p.base.hcomb) && same_shape(q.base.state(), p.base.state())
}
/// what the buffers hold is what the user's function leaves at x
pub open spec fn at_point(p: ProblemNlp, x: Seq<F64>) -> bool { exists|s: EvState| same_shape(s, p.base.state()) && #[trigger] ev_rel(p.base.eval_fn, s, x, p.base.state()) }
pub open spec fn step(p: ProblemNlp, new_x: i32, x: Seq<F64>, q: ProblemNlp) -> bool { if new_x == 1 { ev_rel(p.base.eval_fn, p.base.state(), x, q.base.state()) && q.base.same_data(&p.base) } else { q == p } }
pub proof fn lem_hoffs_pat(a: Seq<CooMat>, b: Seq<CooMat>, n: int) requires same_pats(a, b), n <= a.len() ensures hoffs(a, n) == hoffs(b, n) decreases n { if n > 0 { lem_hoffs_pat(a, b, n - 1); assert(same_pat(a[n - 1], b[n - 1])); } }
pub proof fn lem_step(p: ProblemNlp, new_x: i32, x: Seq<F64>, q: ProblemNlp)
    requires nlp_ok(p), step(p, new_x, x, q), new_x == 1 ==> x.len() == nlp_nx(p)
    ensures nlp_ok(q), nlp_same(p, q), new_x == 1 || at_point(p, x) ==> at_point(q, x)
{
    if new_x == 1 {
        let a = p.base; let b = q.base;
        assert(same_shape(a.state(), a.state()));
        assert(same_shape(b.state(), a.state()));
        assert(same_shape(a.state(), b.state()));
        lem_keep(p, q);
        assert(at_point(q, x));
    } else { assert(same_shape(p.base.state(), p.base.state())); }
}
pub proof fn lem_keep(p: ProblemNlp, q: ProblemNlp)
    requires nlp_ok(p), nlp_same(p, q)
    ensures nlp_ok(q)
{
    let a = p.base; let b = q.base;
    assert forall|i: int| 0 <= i < b.h@.len() implies (#[trigger] b.h@[i]).wf() && b.h@[i].shape == a.h@[i].shape by { assert(same_pat(b.h@[i], a.h@[i])); assert(a.h@[i].wf()); }
    lem_hoffs_pat(b.h@, a.h@, b.h@.len() as int);
    assert forall|i: int, k: int| 0 <= i < b.h@.len() && 0 <= k < b.h@[i].data@.len() implies #[trigger] hpat_at(b.hcomb, b.h@, i, k) by { assert(same_pat(b.h@[i], a.h@[i])); lem_hoffs_pat(b.h@, a.h@, i); assert(hpat_at(a.hcomb, a.h@, i, k)); }
    assert(good_fn(b.eval_fn, b.state())) by {
        assert forall|s1: EvState| #[trigger] same_shape(s1, b.state()) implies same_shape(s1, a.state()) by { lem_shape_trans(s1, b.state(), a.state()); }
        assert forall|s1: EvState| #[trigger] same_shape(s1, a.state()) implies same_shape(s1, b.state()) by { lem_shape_sym(b.state(), a.state()); lem_shape_trans(s1, a.state(), b.state()); }
    }
}
pub proof fn lem_shape_sym(a: EvState, b: EvState) requires same_shape(a, b) ensures same_shape(b, a) { assert forall|i: int| 0 <= i < b.h.len() implies same_pat(#[trigger] b.h[i], a.h[i]) by { assert(same_pat(a.h[i], b.h[i])); } }
pub proof fn lem_shape_trans(a: EvState, b: EvState, c: EvState) requires same_shape(a, b), same_shape(b, c) ensures same_shape(a, c) { assert forall|i: int| 0 <= i < a.h.len() implies same_pat(#[trigger] a.h[i], c.h[i]) by { assert(same_pat(a.h[i], b.h[i])); assert(same_pat(b.h[i], c.h[i])); } }
} // verus!
