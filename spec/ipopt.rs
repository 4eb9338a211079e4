verus! {
// ------------------------------------------------------------- libipopt
// The library's problems are handles into an explicit world, which also records the runs.
pub struct RtIpopt { pub id: Ghost<int> }
impl Copy for RtIpopt {}
impl Clone for RtIpopt { #[verifier::external_body] fn clone(&self) -> (r: RtIpopt) ensures r == *self { unimplemented!() } }
impl RtIpopt { #[verifier::external_body] pub fn is_null(self) -> (r: bool) ensures r == (self.id@ == 0) { unimplemented!() } }
pub enum RtCb { F, G, GradF, JacG, H }
/// what a library problem was made and configured with
pub struct Setup { pub n: int, pub m: int, pub xl: Seq<F64>, pub xu: Seq<F64>, pub gl: Seq<F64>, pub gu: Seq<F64>, pub nj: int, pub nh: int, pub ints: Map<Seq<char>, int>, pub strs: Map<Seq<char>, Seq<char>> }
pub struct Run { pub setup: Setup, pub problem: ProblemNlp, pub start: Seq<F64>, pub code: i32, pub x: Seq<F64>, pub mg: Seq<F64>, pub ml: Seq<F64>, pub mu: Seq<F64> }
pub struct RtWorld { pub live: Ghost<Map<int, Setup>>, pub runs: Ghost<Seq<Run>>, pub faults: Ghost<int> }
pub struct RtNull {}
pub fn rt_null() -> RtNull { RtNull {} }
pub trait RtAddr { spec fn at(&self) -> Seq<F64>; fn rt_as_ptr(&self) -> (r: Ghost<Seq<F64>>) ensures r@ == self.at(); }
impl RtAddr for [F64] { open spec fn at(&self) -> Seq<F64> { self@ } #[verifier::external_body] fn rt_as_ptr(&self) -> (r: Ghost<Seq<F64>>) { unimplemented!() } }
impl RtAddr for Vec<F64> { open spec fn at(&self) -> Seq<F64> { self@ } #[verifier::external_body] fn rt_as_ptr(&self) -> (r: Ghost<Seq<F64>>) { unimplemented!() } }
pub trait RtAddrMut: Sized { spec fn cells(&self) -> Seq<F64>; fn rt_as_mut_ptr(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r); }
impl RtAddrMut for Vec<F64> { open spec fn cells(&self) -> Seq<F64> { self@ } fn rt_as_mut_ptr(&mut self) -> (r: &mut Vec<F64>) { self } }
/// text for the library: no NUL inside
pub open spec fn no_nul(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\0' }
pub struct CString { pub s: Ghost<Seq<char>> }
#[derive(Debug)] pub struct NulError { pub e: u8 }
impl CString {
    #[verifier::external_body] pub fn new<S: RtStr + ?Sized>(s: &S) -> (r: Result<CString, NulError>) ensures r is Ok == no_nul(s.chars()), r is Ok ==> r->Ok_0.s@ == s.chars() { unimplemented!() }
    #[verifier::external_body] pub fn rt_as_ptr(&self) -> (r: Ghost<Seq<char>>) ensures r@ == self.s@ { unimplemented!() }
}
pub trait RtStr { spec fn chars(&self) -> Seq<char>; }
impl RtStr for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl RtStr for String { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<S: RtStr + ?Sized> RtStr for &S { open spec fn chars(&self) -> Seq<char> { (**self).chars() } }
#[verifier::external_body] pub fn CreateIpoptProblem(n: i32, xl: Ghost<Seq<F64>>, xu: Ghost<Seq<F64>>, m: i32, gl: Ghost<Seq<F64>>, gu: Ghost<Seq<F64>>, nj: i32, nh: i32, style: i32, f: RtCb, g: RtCb, gf: RtCb, jg: RtCb, h: RtCb, w: &mut RtWorld) -> (r: RtIpopt)
    requires n >= 0, m >= 0, nj >= 0, nh >= 0, xl@.len() >= n, xu@.len() >= n, gl@.len() >= m, gu@.len() >= m, style == 0, f is F, g is G, gf is GradF, jg is JacG, h is H
    ensures final(w).runs == old(w).runs, if r.id@ == 0 { final(w).live == old(w).live && final(w).faults@ == old(w).faults@ + 1 } else {
        final(w).faults == old(w).faults && !old(w).live@.contains_key(r.id@) && final(w).live@ == old(w).live@.insert(r.id@, Setup { n: n as int, m: m as int, xl: xl@.subrange(0, n as int), xu: xu@.subrange(0, n as int), gl: gl@.subrange(0, m as int), gu: gu@.subrange(0, m as int), nj: nj as int, nh: nh as int, ints: Map::empty(), strs: Map::empty() }) }
{ unimplemented!() }
#[verifier::external_body] pub fn FreeIpoptProblem(p: RtIpopt, w: &mut RtWorld)
    requires old(w).live@.contains_key(p.id@)
    ensures final(w).runs == old(w).runs, final(w).faults == old(w).faults, final(w).live@ == old(w).live@.remove(p.id@)
{ unimplemented!() }
pub open spec fn with_int(s: Setup, k: Seq<char>, v: int) -> Setup { Setup { ints: s.ints.insert(k, v), ..s } }
pub open spec fn with_str(s: Setup, k: Seq<char>, v: Seq<char>) -> Setup { Setup { strs: s.strs.insert(k, v), ..s } }
/// an option is taken, or refused and nothing changes
pub open spec fn option_set(ok: bool, p: RtIpopt, s: Setup, a: RtWorld, b: RtWorld) -> bool {
    b.runs == a.runs && if ok { b.faults == a.faults && b.live@ == a.live@.insert(p.id@, s) } else { b.live == a.live }
}
#[verifier::external_body] pub fn AddIpoptIntOption(p: RtIpopt, k: Ghost<Seq<char>>, v: i32, w: &mut RtWorld) -> (r: i32)
    requires old(w).live@.contains_key(p.id@)
    ensures option_set(r == 1, p, with_int(old(w).live@[p.id@], k@, v as int), *old(w), *final(w)), r != 1 ==> final(w).faults@ == old(w).faults@ + 1
{ unimplemented!() }
#[verifier::external_body] pub fn AddIpoptStrOption(p: RtIpopt, k: Ghost<Seq<char>>, v: Ghost<Seq<char>>, w: &mut RtWorld) -> (r: i32)
    requires old(w).live@.contains_key(p.id@)
    ensures option_set(r == 1, p, with_str(old(w).live@[p.id@], k@, v@), *old(w), *final(w)), r != 1 ==> final(w).faults@ == old(w).faults@ + 1
{ unimplemented!() }
/// the callbacks may ask about the problem with the announced sizes: what they need is an obligation here
pub open spec fn fits(s: Setup, p: ProblemNlp) -> bool { nlp_ok(p) && s.n == nlp_nx(p) && s.m == nlp_na(p) + nlp_nf(p) && s.nj == nnzj(p) && s.nh == nnzh(p) }
#[verifier::external_body] pub fn IpoptSolve(h: RtIpopt, x: &mut Vec<F64>, g: RtNull, obj: RtNull, mg: &mut Vec<F64>, ml: &mut Vec<F64>, mu: &mut Vec<F64>, p: &mut ProblemNlp, w: &mut RtWorld) -> (r: i32)
    requires old(w).live@.contains_key(h.id@), fits(old(w).live@[h.id@], *old(p)), old(x)@.len() == nlp_nx(*old(p)), old(ml)@.len() == nlp_nx(*old(p)), old(mu)@.len() == nlp_nx(*old(p)), old(mg)@.len() == nlp_na(*old(p)) + nlp_nf(*old(p))
    ensures final(w).live == old(w).live, final(w).faults == old(w).faults, nlp_ok(*final(p)), nlp_same(*old(p), *final(p)),
        final(x)@.len() == old(x)@.len(), final(ml)@.len() == old(ml)@.len(), final(mu)@.len() == old(mu)@.len(), final(mg)@.len() == old(mg)@.len(),
        final(w).runs@ == old(w).runs@.push(Run { setup: old(w).live@[h.id@], problem: *old(p), start: old(x)@, code: r, x: final(x)@, mg: final(mg)@, ml: final(ml)@, mu: final(mu)@ })
{ unimplemented!() }
// ------------------------------------------------------------- results
pub open spec fn nlp_of(p: Problem) -> Option<ProblemNlp> { match p { Problem::Nlp(q) => Some(q), Problem::Lp(q) => Some(q.base_nlp), _ => None } }
pub open spec fn init(p: ProblemNlp, x: Seq<F64>) -> bool { match p.base.x0 { Some(v) => x == v@, None => x.len() == nlp_nx(p) && zeros(x) } }
pub open spec fn passed(s: Setup, p: ProblemNlp, params: Params) -> bool {
    &&& s.n == nlp_nx(p) && s.m == nlp_na(p) + nlp_nf(p) && s.nj == nnzj(p) && s.nh == nnzh(p)
    &&& s.xl =~= p.base.l@ && s.xu =~= p.base.u@ && s.gl.len() == s.m && s.gu.len() == s.m && zeros(s.gl) && zeros(s.gu)
    &&& s.ints.contains_key("print_level"@) && has_level(params, s.ints["print_level"@]) && s.strs.contains_key("sb"@) && has_sb(params, s.strs["sb"@])
}
pub open spec fn has_level(params: Params, v: int) -> bool { exists|i: i32| i == v && #[trigger] has_param(params, "print_level"@, SolverParam::IntParam(i)) }
pub open spec fn has_sb(params: Params, v: Seq<char>) -> bool { exists|s: String| s@ == v && #[trigger] has_param(params, "sb"@, SolverParam::StrParam(s)) }
pub open spec fn status_of(code: i32) -> SolverStatus { if code == 0 || code == 1 { SolverStatus::Solved } else if code == 2 { SolverStatus::Infeasible } else { SolverStatus::Error } }
pub open spec fn negated(a: Seq<F64>, b: Seq<F64>, o: int, n: int) -> bool { a.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).v@ == fv_neg(b[o + k].v@) }
pub open spec fn result_of(q: Run, s: ProblemSol) -> bool { s.x@ == q.x && s.pi@ == q.ml && s.mu@ == q.mu && negated(s.lam@, q.mg, 0, nlp_na(q.problem)) && negated(s.nu@, q.mg, nlp_na(q.problem), nlp_nf(q.problem)) }
pub open spec fn sol_rest(a: ProblemSol, b: ProblemSol) -> bool { a.x@ == b.x@ && a.pi@ == b.pi@ && a.mu@ == b.mu@ }
pub open spec fn last_run(a: RtWorld, b: RtWorld, q: Run) -> bool { b.runs@ == a.runs@.push(q) }
pub open spec fn ipopt_post(params: Params, p: ProblemNlp, a: RtWorld, b: RtWorld, r: Result<(SolverStatus, ProblemSol), SimpleError>) -> bool {
    &&& b.live@ =~= a.live@
    &&& match r {
        Ok((st, sol)) => exists|q: Run| #[trigger] last_run(a, b, q) && q.problem == p && passed(q.setup, p, params) && init(p, q.start) && st == status_of(q.code) && result_of(q, sol),
        Err(_) => b.runs == a.runs && (b.faults@ > a.faults@ || !(exists|v: int| has_level(params, v)) || !(exists|v: Seq<char>| #[trigger] has_sb(params, v) && no_nul(v))),
    }
}
} // verus!
