verus! {
// ------------------------------------------------------------- text read from a file
/// reading the file fails (also: it is not text)
pub uninterp spec fn io_fault(name: Seq<char>) -> bool;
/// the words of a text, separated by white space
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn parts(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub uninterp spec fn has_sub(s: Seq<char>, t: Seq<char>) -> bool;
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.subrange(0, t.len() as int) == t }
pub broadcast axiom fn words_empty() ensures #[trigger] words(Seq::<char>::empty()) == Seq::<Seq<char>>::empty();
pub uninterp spec fn num_of(s: Seq<char>) -> Option<F64>;
pub uninterp spec fn nat_of(s: Seq<char>) -> Option<usize>;
pub struct ParseErr { pub g: Ghost<int> }
pub trait RtFromStr: Sized { spec fn value_of(s: Seq<char>) -> Option<Self>; }
impl RtFromStr for F64 { open spec fn value_of(s: Seq<char>) -> Option<F64> { num_of(s) } }
impl RtFromStr for usize { open spec fn value_of(s: Seq<char>) -> Option<usize> { nat_of(s) } }
pub trait RtChars { spec fn chars(&self) -> Seq<char>; }
impl RtChars for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl RtChars for String { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<T: RtChars + ?Sized> RtChars for &T { open spec fn chars(&self) -> Seq<char> { (**self).chars() } }
#[verifier::external_body] pub fn rt_str_eq<A: RtChars + ?Sized, B: RtChars + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.chars() == b.chars()) { unimplemented!() }
#[verifier::external_body] pub fn rt_opt_str_eq<A: RtChars, B: RtChars>(a: &Option<A>, b: &Option<B>) -> (r: bool) ensures r == (match (*a, *b) { (Some(x), Some(y)) => x.chars() == y.chars(), (None, None) => true, _ => false }) { unimplemented!() }
pub struct RtWords<'a> { pub w: Ghost<Seq<Seq<char>>>, pub pos: Ghost<int>, pub l: Ghost<Option<&'a str>> }
impl<'a> RtWords<'a> {
    pub open spec fn ok(&self) -> bool { 0 <= self.pos@ <= self.w@.len() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).w@ == old(self).w@, match r {
            Some(s) => old(self).pos@ < old(self).w@.len() && s@ == old(self).w@[old(self).pos@] && final(self).pos@ == old(self).pos@ + 1,
            None => old(self).pos@ == old(self).w@.len() && final(self).pos@ == old(self).pos@ }
    { unimplemented!() }
}
pub trait RtStr {
    spec fn sv(&self) -> Seq<char>;
    fn rt_words<'a>(&'a self) -> (r: RtWords<'a>) ensures r.w@ == words(self.sv()), r.pos@ == 0;
    fn rt_split<'a>(&'a self, c: char) -> (r: RtWords<'a>) ensures r.w@ == parts(self.sv(), c), r.pos@ == 0;
    fn rt_parse<T: RtFromStr>(&self) -> (r: Result<T, ParseErr>) ensures match T::value_of(self.sv()) { Some(v) => r == Ok::<T, ParseErr>(v), None => r is Err };
    fn rt_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn rt_starts_with(&self, t: &str) -> (r: bool) ensures r == starts(self.sv(), t@);
    fn rt_contains(&self, t: &str) -> (r: bool) ensures r == has_sub(self.sv(), t@);
}
impl RtStr for str { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rt_words<'a>(&'a self) -> (r: RtWords<'a>) { unimplemented!() }
    #[verifier::external_body] fn rt_split<'a>(&'a self, c: char) -> (r: RtWords<'a>) { unimplemented!() }
    #[verifier::external_body] fn rt_parse<T: RtFromStr>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() }
    #[verifier::external_body] fn rt_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rt_starts_with(&self, t: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rt_contains(&self, t: &str) -> (r: bool) { unimplemented!() } }
impl RtStr for String { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rt_words<'a>(&'a self) -> (r: RtWords<'a>) { unimplemented!() }
    #[verifier::external_body] fn rt_split<'a>(&'a self, c: char) -> (r: RtWords<'a>) { unimplemented!() }
    #[verifier::external_body] fn rt_parse<T: RtFromStr>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() }
    #[verifier::external_body] fn rt_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rt_starts_with(&self, t: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rt_contains(&self, t: &str) -> (r: bool) { unimplemented!() } }
pub struct BufReader { pub name: Ghost<Seq<char>>, pub ls: Ghost<Seq<Seq<char>>>, pub pos: Ghost<int> }
impl BufReader {
    pub open spec fn ok(&self) -> bool { 0 <= self.pos@ <= self.ls@.len() }
    #[verifier::external_body] pub fn new(f: File) -> (r: BufReader) ensures r.name@ == f.name@, f.ls@ is Some ==> f.ls@ == Some(r.ls@), r.pos@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn read_line(&mut self, s: &mut String) -> (r: Result<usize, IoError>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).name@ == old(self).name@, final(self).ls@ == old(self).ls@, match r {
            Ok(n) => if old(self).pos@ < old(self).ls@.len() { final(s)@ == old(s)@ + old(self).ls@[old(self).pos@] && final(self).pos@ == old(self).pos@ + 1 } else { final(s)@ == old(s)@ && final(self).pos@ == old(self).pos@ && n == 0 },
            Err(_) => io_fault(old(self).name@) }
    { unimplemented!() }
    #[verifier::external_body] pub fn lines(self) -> (r: RtLines) requires self.ok() ensures r.r == self { unimplemented!() }
}
pub struct RtLines { pub r: BufReader }
impl RtLines {
    /// the line without its terminator, which is white space
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<String, IoError>>)
        requires old(self).r.ok()
        ensures final(self).r.ok(), final(self).r.name@ == old(self).r.name@, final(self).r.ls@ == old(self).r.ls@, match r {
            Some(Ok(s)) => old(self).r.pos@ < old(self).r.ls@.len() && words(s@) == words(old(self).r.ls@[old(self).r.pos@]) && final(self).r.pos@ == old(self).r.pos@ + 1,
            Some(Err(_)) => io_fault(old(self).r.name@),
            None => old(self).r.pos@ == old(self).r.ls@.len() && final(self).r.pos@ == old(self).r.pos@ }
    { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SolverStatus { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SolverStatus) -> bool { *self == *o } }
impl PartialEq for SolverStatus { #[verifier::external_body] fn eq(&self, o: &SolverStatus) -> (r: bool) { unimplemented!() } }
// ------------------------------------------------------------- what a solution file says
pub struct SolData { pub x: Seq<F64>, pub lam: Seq<F64>, pub mu: Seq<F64>, pub pi: Seq<F64> }
pub open spec fn sol_of(s: ProblemSol) -> SolData { SolData { x: s.x@, lam: s.lam@, mu: s.mu@, pi: s.pi@ } }
pub open spec fn all_zero(s: Seq<F64>, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).v@ == FV::R(0real) }
/// sized to the problem, all zero
pub open spec fn sol_zero(s: SolData, nx: int, na: int) -> bool { all_zero(s.x, nx) && all_zero(s.lam, na) && all_zero(s.mu, nx) && all_zero(s.pi, nx) }
pub open spec fn sol_sized(s: ProblemSol, nx: int, na: int) -> bool { s.x@.len() == nx && s.lam@.len() == na && s.mu@.len() == nx && s.pi@.len() == nx && s.nu@.len() == 0 }
/// the status that the first line reports
pub open spec fn status_of(line: Seq<char>, cbc: bool) -> SolverStatus {
    if words(line).len() == 0 { SolverStatus::Error } else {
        let w = words(line)[0];
        if w == "Optimal"@ || !cbc && w == "optimal"@ { SolverStatus::Solved }
        else if w == "Infeasible"@ || !cbc && w == "infeasible"@ { SolverStatus::Infeasible }
        else if cbc && starts(line, "Integer infeasible"@) { SolverStatus::Infeasible }
        else { SolverStatus::Error }
    }
}
pub open spec fn first_line(ls: Seq<Seq<char>>) -> Seq<char> { if ls.len() > 0 { ls[0] } else { Seq::empty() } }
/// lines before the results
pub open spec fn head(ls: Seq<Seq<char>>, cbc: bool) -> int { let h = if !cbc && !has_sub(first_line(ls), "objective value"@) { 2int } else { 1int }; if h < ls.len() { h } else { ls.len() as int } }
pub struct Entry { pub var: bool, pub index: usize, pub value: F64, pub mul: F64 }
/// a result line: [**] number name value multiplier
pub open spec fn entry_at(w: Seq<Seq<char>>, k: int) -> Option<Entry> {
    if w.len() < k + 3 { None } else {
        match (num_of(w[k + 1]), num_of(w[k + 2])) {
            (Some(value), Some(mul)) => { let p = parts(w[k], '_'); if p.len() < 2 { None } else { match nat_of(p[1]) {
                Some(index) => if p[0] == "x"@ { Some(Entry { var: true, index, value, mul }) } else if p[0] == "c"@ { Some(Entry { var: false, index, value, mul }) } else { None },
                None => None } } },
            _ => None,
        }
    }
}
pub open spec fn entry_of(line: Seq<char>) -> Option<Entry> { let w = words(line); if w.len() > 0 && w[0] == "**"@ { entry_at(w, 2) } else { entry_at(w, 1) } }
pub open spec fn enter(s: SolData, e: Entry) -> Option<SolData> {
    if e.var {
        if e.index >= s.x.len() || e.index >= s.mu.len() || e.index >= s.pi.len() { None }
        else if fv_lt(FV::R(0real), e.mul.v@) { Some(SolData { x: s.x.update(e.index as int, e.value), pi: s.pi.update(e.index as int, e.mul), ..s }) }
        else { Some(SolData { x: s.x.update(e.index as int, e.value), mu: s.mu.update(e.index as int, f(fv_neg(e.mul.v@))), ..s }) }
    } else if e.index >= s.lam.len() { None } else { Some(SolData { lam: s.lam.update(e.index as int, e.mul), ..s }) }
}
/// the solution after lines lo..n; None when one of them is wrong
pub open spec fn fold(ls: Seq<Seq<char>>, lo: int, n: int, z: SolData) -> Option<SolData> decreases n - lo {
    if n <= lo { Some(z) } else { match (fold(ls, lo, n - 1, z), entry_of(ls[n - 1])) { (Some(s), Some(e)) => enter(s, e), _ => None } }
}
pub proof fn lem_fold_none(ls: Seq<Seq<char>>, lo: int, n: int, m: int, z: SolData) requires lo <= n <= m, fold(ls, lo, n, z) is None ensures fold(ls, lo, m, z) is None decreases m - n { if n < m { lem_fold_none(ls, lo, n, m - 1, z); } }
/// what reading a solution file for nx variables and na rows may return; ls: its lines, None when it cannot be opened; fault: reading it fails
pub open spec fn sol_file_post(ls: Option<Seq<Seq<char>>>, fault: bool, nx: int, na: int, cbc: bool, r: Result<(SolverStatus, ProblemSol), IoError>) -> bool { match (ls, r) {
    (None, Ok((st, sol))) => st == SolverStatus::Error && sol_sized(sol, nx, na),
    (None, Err(_)) => false,
    (Some(ls), Ok((st, sol))) => st == status_of(first_line(ls), cbc) && sol_sized(sol, nx, na)
        && (st is Solved ==> exists|z: SolData| #[trigger] sol_zero(z, nx, na) && reads(ls, cbc, z) == Some(sol_of(sol))),
    (Some(ls), Err(_)) => sol_bad(ls, fault, nx, na, cbc),
} }
pub open spec fn sol_bad(ls: Seq<Seq<char>>, fault: bool, nx: int, na: int, cbc: bool) -> bool { fault || status_of(first_line(ls), cbc) is Solved && exists|z: SolData| #[trigger] sol_zero(z, nx, na) && reads(ls, cbc, z) is None }
pub open spec fn reads(ls: Seq<Seq<char>>, cbc: bool, z: SolData) -> Option<SolData> { fold(ls, head(ls, cbc), ls.len() as int, z) }
} // verus!
