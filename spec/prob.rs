verus! {
// ------------------------------------------------------------- problems
// The stored evaluation function: an opaque object; what calling it may do is the relation
// ev_rel, when it may be called ev_pre.
pub struct EvalFn { pub g: Ghost<int> }
pub struct EvState { pub phi: F64, pub gphi: Seq<F64>, pub hphi: CooMat, pub f: Seq<F64>, pub j: CooMat, pub h: Seq<CooMat> }
pub open spec fn ev_state(phi: F64, gphi: Seq<F64>, hphi: CooMat, f: Seq<F64>, j: CooMat, h: Seq<CooMat>) -> EvState { EvState { phi, gphi, hphi, f, j, h } }
pub uninterp spec fn ev_pre(e: EvalFn, s: EvState, x: Seq<F64>) -> bool;
pub uninterp spec fn ev_rel(e: EvalFn, s: EvState, x: Seq<F64>, s2: EvState) -> bool;
impl EvalFn {
    #[verifier::external_body]
    pub fn rt_call(&self, phi: &mut F64, gphi: &mut Vec<F64>, hphi: &mut CooMat, f: &mut Vec<F64>, j: &mut CooMat, h: &mut Vec<CooMat>, x: &[F64])
        requires ev_pre(*self, ev_state(*old(phi), old(gphi)@, *old(hphi), old(f)@, *old(j), old(h)@), x@)
        ensures ev_rel(*self, ev_state(*old(phi), old(gphi)@, *old(hphi), old(f)@, *old(j), old(h)@), x@, ev_state(*final(phi), final(gphi)@, *final(hphi), final(f)@, *final(j), final(h)@))
    { unimplemented!() }
}
impl Clone for CooMat { #[verifier::external_body] fn clone(&self) -> (r: CooMat) ensures r == *self { unimplemented!() } }
pub trait RtElems<T> { spec fn elems(&self) -> Seq<T>; }
impl<T> RtElems<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } }
impl<T> RtElems<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } }
impl<T, S: RtElems<T> + ?Sized> RtElems<T> for &S { open spec fn elems(&self) -> Seq<T> { (**self).elems() } }
// ndarray's dot product: exact, so the order of summation does not matter
pub open spec fn dotf(a: Seq<F64>, b: Seq<F64>, n: int) -> FV decreases n { if n <= 0 { FV::R(0real) } else { fv_add(dotf(a, b, n - 1), fv_mul(a[n - 1].v@, b[n - 1].v@)) } }
pub proof fn lem_dotf_sym(a: Seq<F64>, b: Seq<F64>, n: int) ensures dotf(a, b, n) == dotf(b, a, n) decreases n { if n > 0 { lem_dotf_sym(a, b, n - 1); assert(fv_mul(a[n - 1].v@, b[n - 1].v@) == fv_mul(b[n - 1].v@, a[n - 1].v@)) by { lem_fv_mul_sym(a[n - 1].v@, b[n - 1].v@); } } }
pub proof fn lem_fv_mul_sym(a: FV, b: FV) ensures fv_mul(a, b) == fv_mul(b, a) { match (a, b) { (FV::R(x), FV::R(y)) => { assert(x * y == y * x) by (nonlinear_arith); } _ => {} } }
pub struct ArrayView1 { pub s: Ghost<Seq<F64>> }
impl ArrayView1 {
    #[verifier::external_body] pub fn from<T: RtElems<F64> + ?Sized>(x: &T) -> (r: ArrayView1) ensures r.s@ == x.elems() { unimplemented!() }
    #[verifier::external_body] pub fn dot(&self, o: &ArrayView1) -> (r: F64) requires self.s@.len() == o.s@.len() ensures r.v@ == dotf(self.s@, o.s@, self.s@.len() as int) { unimplemented!() }
}
pub trait RtCopy<T> { spec fn vm(&self) -> Seq<T>; fn rt_copy_from_slice<S: RtElems<T> + ?Sized>(&mut self, s: &S) requires old(self).vm().len() == s.elems().len() ensures final(self).vm() == s.elems(); }
impl<T> RtCopy<T> for Vec<T> { open spec fn vm(&self) -> Seq<T> { self@ } #[verifier::external_body] fn rt_copy_from_slice<S: RtElems<T> + ?Sized>(&mut self, s: &S) { unimplemented!() } }
// ------------------------------------------------------------- structure
pub open spec fn hoffs(h: Seq<CooMat>, i: int) -> int decreases i { if i <= 0 { 0 } else { hoffs(h, i - 1) + h[i - 1].data@.len() } }
pub proof fn lem_hoffs_mono(h: Seq<CooMat>, i: int, j: int) requires 0 <= i <= j ensures 0 <= hoffs(h, i) <= hoffs(h, j) decreases j, i { if i < j { lem_hoffs_mono(h, i, j - 1); } else if i > 0 { lem_hoffs_mono(h, i - 1, i - 1); } }
pub open spec fn all_wf(h: Seq<CooMat>) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).wf() }
pub open spec fn dims_ok(nx: int, na: int, nf: int, hphi: CooMat, b: int, h: Seq<CooMat>, l: int, u: int, p: int) -> bool {
    &&& hphi.shape.0 == nx && hphi.shape.1 == nx && b == na && l == nx && u == nx && p == nx && h.len() == nf
    &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).shape.0 == nx && h[i].shape.1 == nx
}
/// entry k of constraint i is entry hoffs(i)+k of the combination
pub open spec fn hpat_at(hc: CooMat, h: Seq<CooMat>, i: int, k: int) -> bool { hc.row_inds@[hoffs(h, i) + k] == h[i].row_inds@[k] && hc.col_inds@[hoffs(h, i) + k] == h[i].col_inds@[k] }
pub open spec fn hpat(hc: CooMat, h: Seq<CooMat>, n: int) -> bool { forall|i: int, k: int| 0 <= i < n && 0 <= k < h[i].data@.len() ==> #[trigger] hpat_at(hc, h, i, k) }
pub open spec fn hcomb_at(hc: CooMat, h: Seq<CooMat>, nu: Seq<F64>, i: int, k: int) -> bool { hc.data@[hoffs(h, i) + k].v@ == fv_mul(nu[i].v@, h[i].data@[k].v@) }
pub open spec fn hprod_at(d: Seq<F64>, h: Seq<CooMat>, nu: Seq<F64>, i: int, k: int) -> bool { d[hoffs(h, i) + k].v@ == fv_mul(nu[i].v@, h[i].data@[k].v@) }
pub open spec fn hprod(d: Seq<F64>, h: Seq<CooMat>, nu: Seq<F64>, n: int) -> bool { forall|i: int, k: int| 0 <= i < n && 0 <= k < h[i].data@.len() ==> #[trigger] hprod_at(d, h, nu, i, k) }
pub open spec fn hcomb_of(hc: CooMat, h: Seq<CooMat>, nu: Seq<F64>, n: int) -> bool { forall|i: int, k: int| 0 <= i < n && 0 <= k < h[i].data@.len() ==> #[trigger] hcomb_at(hc, h, nu, i, k) }
pub open spec fn zeros(s: Seq<F64>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v@ == FV::R(0real) }
pub open spec fn falses(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]) }
pub open spec fn opt_view(o: Option<Vec<F64>>) -> Option<Seq<F64>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn opt_slice(o: Option<&[F64]>) -> Option<Seq<F64>> { match o { Some(v) => Some(v@), None => None } }
impl ProblemMinlp {
    pub open spec fn state(&self) -> EvState { ev_state(self.phi, self.gphi@, self.hphi, self.f@, self.j, self.h@) }
    /// holds exactly these data
    pub open spec fn holds(&self, a: CooMat, b: Seq<F64>, l: Seq<F64>, u: Seq<F64>, p: Seq<bool>, x0: Option<Seq<F64>>) -> bool {
        self.a == a && self.b@ == b && self.l@ == l && self.u@ == u && self.p@ == p && opt_view(self.x0) == x0
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.a.wf() && self.hphi.wf() && self.j.wf() && all_wf(self.h@)
        &&& self.gphi@.len() == self.a.shape.1 && self.f@.len() == self.j.shape.0
        &&& dims_ok(self.a.shape.1 as int, self.a.shape.0 as int, self.j.shape.0 as int, self.hphi, self.b@.len() as int, self.h@, self.l@.len() as int, self.u@.len() as int, self.p@.len() as int)
    }
    /// the combination has the entries of all constraint Hessians, in order
    pub open spec fn hc_ok(&self) -> bool {
        &&& all_wf(self.h@) && self.hcomb.wf()
        &&& self.hcomb.data@.len() == hoffs(self.h@, self.h@.len() as int) && hpat(self.hcomb, self.h@, self.h@.len() as int)
        &&& self.hcomb.shape == (self.a.shape.1, self.a.shape.1)
    }
    /// everything but the evaluation buffers
    pub open spec fn same_data(&self, o: &ProblemMinlp) -> bool {
        self.x0 == o.x0 && self.a == o.a && self.b == o.b && self.hcomb == o.hcomb && self.l == o.l && self.u == o.u && self.p == o.p && self.eval_fn == o.eval_fn
    }
}
/// the evaluation function of a linear problem with objective c
pub open spec fn lin_post(c: Seq<F64>, s: EvState, x: Seq<F64>, s2: EvState) -> bool {
    s2.phi.v@ == dotf(c, x, c.len() as int) && s2.gphi == c && s2.hphi == s.hphi && s2.f == s.f && s2.j == s.j && s2.h == s.h
}
pub open spec fn lin_fn(e: EvalFn, c: Seq<F64>) -> bool {
    &&& forall|s: EvState, x: Seq<F64>| s.gphi.len() == c.len() && x.len() == c.len() ==> #[trigger] ev_pre(e, s, x)
    &&& forall|s: EvState, x: Seq<F64>, s2: EvState| s.gphi.len() == c.len() && x.len() == c.len() && #[trigger] ev_rel(e, s, x, s2) ==> lin_post(c, s, x, s2)
}
pub open spec fn lin_empty(m: &ProblemMinlp) -> bool { m.hphi.data@.len() == 0 && m.j.data@.len() == 0 && m.h@.len() == 0 && m.f@.len() == 0 }
impl ProblemMilp {
    pub open spec fn wf(&self) -> bool { self.base.wf() && lin_fn(self.base.eval_fn, self.c@) && lin_empty(&self.base) && self.c@.len() == self.base.a.shape.1 }
}
impl ProblemNlp { pub open spec fn wf(&self) -> bool { self.base.wf() && falses(self.base.p@) } }
impl ProblemLp {
    pub open spec fn wf(&self) -> bool { self.base_milp.wf() && self.base_nlp.wf() && falses(self.base_milp.base.p@) && lin_fn(self.base_nlp.base.eval_fn, self.base_milp.c@) && lin_empty(&self.base_nlp.base)
        && self.base_nlp.base.holds(self.base_milp.base.a, self.base_milp.base.b@, self.base_milp.base.l@, self.base_milp.base.u@, self.base_milp.base.p@, opt_view(self.base_milp.base.x0)) }
}
/// P04: evaluating a linear problem, in any view and after any earlier evaluation, gives c'x and c, and it can be evaluated again
pub proof fn lem_lin_eval(o: ProblemMinlp, m: ProblemMinlp, c: Seq<F64>, x: Seq<F64>)
    requires o.wf(), lin_empty(&o), lin_fn(o.eval_fn, c), c.len() == o.a.shape.1, x.len() == c.len(), m.same_data(&o), ev_rel(o.eval_fn, o.state(), x, m.state())
    ensures ev_pre(o.eval_fn, o.state(), x), m.phi.v@ == dotf(c, x, c.len() as int), m.gphi@ == c, m.wf(), lin_empty(&m), lin_fn(m.eval_fn, c)
{
    assert(lin_post(c, o.state(), x, m.state()));
}
pub proof fn lem_milp_eval(p: ProblemMilp, m: ProblemMinlp, x: Seq<F64>)
    requires p.wf(), x.len() == p.c@.len(), m.same_data(&p.base), ev_rel(p.base.eval_fn, p.base.state(), x, m.state())
    ensures m.phi.v@ == dotf(p.c@, x, x.len() as int), m.gphi@ == p.c@, (ProblemMilp { c: p.c, base: m }).wf()
{ lem_lin_eval(p.base, m, p.c@, x); }
pub proof fn lem_lp_eval(p: ProblemLp, m: ProblemMinlp, x: Seq<F64>)
    requires p.wf(), x.len() == p.base_milp.c@.len(), m.same_data(&p.base_nlp.base), ev_rel(p.base_nlp.base.eval_fn, p.base_nlp.base.state(), x, m.state())
    ensures m.phi.v@ == dotf(p.base_milp.c@, x, x.len() as int), m.gphi@ == p.base_milp.c@, (ProblemLp { base_milp: p.base_milp, base_nlp: ProblemNlp { base: m } }).wf()
{ lem_lin_eval(p.base_nlp.base, m, p.base_milp.c@, x); }
/// a failing assert does not return (partial-correctness variants, named ..__rejects)
#[verifier::external_body] pub fn rt_check(c: bool) ensures c { unimplemented!() }
#[verifier::external_body] pub fn rt_diverge() -> ! { unimplemented!() }
} // verus!
