verus! {
// ------------------------------------------------------------- requests
/// memory differs in the n cells at p at most
pub open spec fn only<T: RtCell>(m: RtMem, m2: RtMem, p: RtPtr<T>, n: int) -> bool {
    &&& T::put(m, T::mem(m2)) == m2 && T::mem(m2).dom() =~= T::mem(m).dom()
    &&& forall|b: int| b != p.b@ ==> #[trigger] T::mem(m2)[b] == T::mem(m)[b]
    &&& T::mem(m2)[p.b@].len() == T::mem(m)[p.b@].len()
    &&& forall|k: int| 0 <= k < T::mem(m)[p.b@].len() && !(p.o@ <= k < p.o@ + n) ==> #[trigger] T::mem(m2)[p.b@][k] == T::mem(m)[p.b@][k]
}
pub open spec fn asked(n: i32, x: RtPtr<F64>, new_x: i32, m: RtMem, u: RtVoid, p: ProblemNlp) -> bool { buffer(x, n as int, m) && (new_x == 0 || new_x == 1) && (u.null || nlp_ok(p)) }
pub open spec fn point(x: RtPtr<F64>, p: ProblemNlp, m: RtMem) -> Seq<F64> { seg(x, nlp_nx(p), m) }
/// after the request the problem is the same, and holds the values at the point when it did before or was told to
pub open spec fn current(p: ProblemNlp, q: ProblemNlp, new_x: i32, x: RtPtr<F64>, m: RtMem) -> bool {
    nlp_ok(q) && nlp_same(p, q) && if x.b@ != 0 { new_x == 1 || at_point(p, point(x, p, m)) ==> at_point(q, point(x, p, m)) } else { q.base.state() == p.base.state() }
}
pub open spec fn refused(r: i32, p: ProblemNlp, q: ProblemNlp, m: RtMem, m2: RtMem) -> bool { r == 0 && m2 == m && q == p }
/// the constraint residuals: a x - b, then the nonlinear ones
pub open spec fn residuals(q: ProblemNlp, x: Seq<F64>, g: Seq<F64>) -> bool {
    &&& g.len() == nlp_na(q) + nlp_nf(q)
    &&& forall|k: int| 0 <= k < nlp_na(q) ==> (#[trigger] g[k]).v@ == fv_sub(coo_dot(&q.base.a, x, q.base.a.row_inds@.len() as int, k), q.base.b@[k].v@)
    &&& forall|k: int| nlp_na(q) <= k < g.len() ==> #[trigger] g[k] == q.base.f@[k - nlp_na(q)]
}
/// the first n entries of the two matrices, one after the other, in the structure buffers (rows of the second moved by off)
pub open spec fn pattern(irow: RtPtr<i32>, jcol: RtPtr<i32>, m: RtMem, a: CooMat, b: CooMat, off: int, n: int) -> bool {
    &&& forall|k: int| #![trigger cell(irow, k, m)] 0 <= k < n ==> cell(irow, k, m) == if k < a.data@.len() { a.row_inds@[k] as int } else { off + b.row_inds@[k - a.data@.len()] }
    &&& forall|k: int| #![trigger cell(jcol, k, m)] 0 <= k < n ==> cell(jcol, k, m) == if k < a.data@.len() { a.col_inds@[k] as int } else { b.col_inds@[k - a.data@.len()] as int }
}
pub open spec fn scaled(c: FV, v: F64, w: F64) -> bool { w.v@ == fv_mul(c, v.v@) }
/// the first n values of the objective Hessian, scaled, and of the combined constraint Hessians
pub open spec fn hessian(values: RtPtr<F64>, m: RtMem, c: FV, a: CooMat, b: CooMat, n: int) -> bool {
    forall|k: int| #![trigger cell(values, k, m)] 0 <= k < n ==> if k < a.data@.len() { scaled(c, a.data@[k], cell(values, k, m)) } else { cell(values, k, m) == b.data@[k - a.data@.len()] }
}
pub open spec fn jacobian(values: RtPtr<F64>, m: RtMem, a: CooMat, b: CooMat, n: int) -> bool {
    forall|k: int| #![trigger cell(values, k, m)] 0 <= k < n ==> cell(values, k, m) == if k < a.data@.len() { a.data@[k] } else { b.data@[k - a.data@.len()] }
}
pub open spec fn only2(m: RtMem, m2: RtMem, p: RtPtr<i32>, q: RtPtr<i32>, n: int) -> bool {
    &&& m2.d == m.d && m2.i@.dom() =~= m.i@.dom()
    &&& forall|b: int| b != p.b@ && b != q.b@ ==> #[trigger] m2.i@[b] == m.i@[b]
    &&& only_in(m, m2, p, n) && only_in(m, m2, q, n)
}
pub open spec fn only_in(m: RtMem, m2: RtMem, p: RtPtr<i32>, n: int) -> bool {
    m2.i@[p.b@].len() == m.i@[p.b@].len() && forall|k: int| 0 <= k < m.i@[p.b@].len() && !(p.o@ <= k < p.o@ + n) ==> #[trigger] m2.i@[p.b@][k] == m.i@[p.b@][k]
}
pub open spec fn outputs(irow: RtPtr<i32>, jcol: RtPtr<i32>, values: RtPtr<F64>, n: int, m: RtMem) -> bool { buffer(irow, n, m) && buffer(jcol, n, m) && buffer(values, n, m) && (irow.b@ != 0 ==> irow.b@ != jcol.b@) }
pub open spec fn sized(n: i32, mm: i32, p: ProblemNlp) -> bool { n == nlp_nx(p) && mm == nlp_na(p) + nlp_nf(p) }
/// calling the user's function and combining keep the problem in order
pub broadcast proof fn lem_evaluated(p: ProblemNlp, x: Seq<F64>, q: ProblemNlp)
    requires #[trigger] ev_rel(p.base.eval_fn, p.base.state(), x, q.base.state()), nlp_ok(p), q.base.same_data(&p.base), x.len() == nlp_nx(p)
    ensures nlp_ok(q), nlp_same(p, q), at_point(q, x)
{ lem_step(p, 1, x, q); }
pub broadcast proof fn lem_combined(p: ProblemNlp, nu: Seq<F64>, q: ProblemNlp)
    requires #[trigger] hcomb_of(q.base.hcomb, p.base.h@, nu, nu.len() as int), nlp_ok(p), q.base.state() == p.base.state(), same_pat(q.base.hcomb, p.base.hcomb),
        q.base.x0 == p.base.x0, q.base.a == p.base.a, q.base.b == p.base.b, q.base.l == p.base.l, q.base.u == p.base.u, q.base.p == p.base.p, q.base.eval_fn == p.base.eval_fn
    ensures nlp_ok(q), nlp_same(p, q)
{ lem_shape_refl(p.base.state()); lem_keep(p, q); }
pub broadcast proof fn lem_shape_refl(s: EvState) ensures #[trigger] same_shape(s, s) { }
pub broadcast proof fn lem_same_trans(p: ProblemNlp, q: ProblemNlp, r: ProblemNlp) requires #[trigger] nlp_same(p, q), #[trigger] nlp_same(q, r) ensures nlp_same(p, r) { lem_shape_trans(r.base.state(), q.base.state(), p.base.state()); lem_shape_sym(r.base.state(), p.base.state()); lem_shape_trans(p.base.state(), q.base.state(), r.base.state()); }
pub broadcast group callbacks { lem_evaluated, lem_combined, lem_shape_refl, lem_same_trans }
} // verus!
