verus! {
// ------------------------------------------------------------- temporary files and commands
pub open spec fn cannot_remove() -> bool { cannot_remove_() }
pub uninterp spec fn cannot_remove_() -> bool;
#[verifier::external_body] pub fn remove_file<S: RtChars + ?Sized>(n: &S, w: &mut RtWorld) -> (r: Result<(), IoError>)
    ensures final(w).names@ == old(w).names@, final(w).runs@ == old(w).runs@, final(w).fs@ == old(w).fs@.remove(n.chars()) || (final(w).fs@ == old(w).fs@ && cannot_remove())
{ unimplemented!() }
pub struct Builder { pub g: Ghost<int> }
impl Builder {
    #[verifier::external_body] pub fn new() -> (r: Builder) { unimplemented!() }
    #[verifier::external_body] pub fn prefix<S: RtChars + ?Sized>(&mut self, s: &S) -> (r: &mut Builder) ensures *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn suffix<S: RtChars + ?Sized>(&mut self, s: &S) -> (r: &mut Builder) ensures *final(self) == *final(r) { unimplemented!() }
    /// a name not handed out before and not in use; the file itself is gone with its handle
    #[verifier::external_body] pub fn tempfile(&self, w: &mut RtWorld) -> (r: Result<NamedTempFile, IoError>)
        ensures final(w).fs@ == old(w).fs@, final(w).runs@ == old(w).runs@, match r {
            Ok(f) => !old(w).names@.contains(f.name@) && !old(w).fs@.contains_key(f.name@) && final(w).names@ == old(w).names@.insert(f.name@),
            Err(e) => from_os(e) && final(w).names@ == old(w).names@ }
    { unimplemented!() }
}
pub struct NamedTempFile { pub name: Ghost<Seq<char>> }
impl NamedTempFile { #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r.name@ == self.name@ { unimplemented!() } }
pub struct Path { pub name: Ghost<Seq<char>> }
impl Path { #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some, r->Some_0.name@ == self.name@ { unimplemented!() } }
pub struct OsStr { pub name: Ghost<Seq<char>> }
impl OsStr { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self.name@ { unimplemented!() } }
/// a number in decimal
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub trait RtArg { spec fn arg_of(&self) -> Arg; }
impl RtArg for str { open spec fn arg_of(&self) -> Arg { Arg::S(self@) } }
impl RtArg for String { open spec fn arg_of(&self) -> Arg { Arg::S(self@) } }
impl RtArg for RtText { open spec fn arg_of(&self) -> Arg { match self.atoms@ { Atoms::Snoc(x, Atom::D(n)) => if *x is Nil { Arg::I(n) } else { Arg::Other }, _ => Arg::Other } } }
impl<T: RtArg + ?Sized> RtArg for &T { open spec fn arg_of(&self) -> Arg { (**self).arg_of() } }
impl RtAsRef<RtText> for RtText { open spec fn as_ref_spec(&self) -> &RtText { self } fn rt_as_ref(&self) -> (r: &RtText) { self } }
impl RtFmt for i32 { open spec fn atom(&self, prec: int) -> Atom { if prec == -1 { Atom::D(*self as int) } else { Atom::Bad } } }
pub struct Stdio { pub g: Ghost<int> }
impl Stdio {
    #[verifier::external_body] pub fn null() -> (r: Stdio) { unimplemented!() }
    #[verifier::external_body] pub fn inherit() -> (r: Stdio) { unimplemented!() }
    #[verifier::external_body] pub fn piped() -> (r: Stdio) { unimplemented!() }
}
pub struct ExitStatus { pub g: Ghost<int> }
/// a command line that ends in "solution" and a name lets the solver write that file and no other
pub open spec fn run_ok(prog: Seq<char>, args: Seq<Arg>, a: RtWorld, b: RtWorld) -> bool {
    &&& b.names@ == a.names@
    &&& b.runs@ == a.runs@.push(Run { prog, args, before: a.fs@, after: b.fs@ })
    &&& args.len() >= 2 && args[args.len() - 2] == Arg::S("solution"@) ==> match args.last() { Arg::S(n) => same_but(a.fs@, b.fs@, n), _ => true }
}
pub struct Command { pub prog: Ghost<Seq<char>>, pub args: Ghost<Seq<Arg>> }
impl Command {
    #[verifier::external_body] pub fn new<S: RtChars + ?Sized>(s: &S) -> (r: Command) ensures r.prog@ == s.chars(), r.args@ == Seq::<Arg>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn arg<A: RtArg + ?Sized>(&mut self, a: &A) -> (r: &mut Command) ensures *final(self) == *final(r), r.prog@ == old(self).prog@, r.args@ == old(self).args@.push(a.arg_of()) { unimplemented!() }
    #[verifier::external_body] pub fn stdout(&mut self, s: Stdio) -> (r: &mut Command) ensures *final(self) == *final(r), *r == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn stderr(&mut self, s: Stdio) -> (r: &mut Command) ensures *final(self) == *final(r), *r == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn stdin(&mut self, s: Stdio) -> (r: &mut Command) ensures *final(self) == *final(r), *r == *old(self) { unimplemented!() }
    /// the run counts once it has been waited for
    #[verifier::external_body] pub fn spawn(&mut self, w: &mut RtWorld) -> (r: Result<Child, IoError>)
        ensures *final(self) == *old(self), *final(w) == *old(w), match r { Ok(c) => c.prog@ == old(self).prog@ && c.args@ == old(self).args@ && !c.done@, Err(e) => from_os(e) }
    { unimplemented!() }
    #[verifier::external_body] pub fn status(&mut self, w: &mut RtWorld) -> (r: Result<ExitStatus, IoError>)
        ensures *final(self) == *old(self), match r { Ok(_) => run_ok(old(self).prog@, old(self).args@, *old(w), *final(w)), Err(e) => from_os(e) && (*final(w) == *old(w) || run_ok(old(self).prog@, old(self).args@, *old(w), *final(w))) }
    { unimplemented!() }
}
pub struct Child { pub prog: Ghost<Seq<char>>, pub args: Ghost<Seq<Arg>>, pub done: Ghost<bool> }
impl Child {
    #[verifier::external_body] pub fn wait(&mut self, w: &mut RtWorld) -> (r: Result<ExitStatus, IoError>)
        requires !old(self).done@
        ensures final(self).done@, final(self).prog@ == old(self).prog@, final(self).args@ == old(self).args@, match r { Ok(_) => true, Err(e) => from_os(e) }, run_ok(old(self).prog@, old(self).args@, *old(w), *final(w))
    { unimplemented!() }
}
// ------------------------------------------------------------- what solving does
pub open spec fn is_arg(a: Arg, s: Seq<char>) -> bool { a == Arg::S(s) }
/// the command line: input file, log level, everything printed, solve, write the solution
pub open spec fn command_line(args: Seq<Arg>, i: Seq<char>, level: int, o: Seq<char>) -> bool {
    args.len() == 8 && is_arg(args[0], i) && is_arg(args[1], "logLevel"@) && (args[2] == Arg::I(level) || is_arg(args[2], dec(level))) && is_arg(args[3], "printingOptions"@)
        && is_arg(args[4], "all"@) && is_arg(args[5], "solve"@) && is_arg(args[6], "solution"@) && is_arg(args[7], o) }
pub open spec fn run_for(r: Run, prog: Seq<char>, level: int, p: ProblemMilp, i: Seq<char>, o: Seq<char>, s: LpSt) -> bool {
    r.prog == prog && command_line(r.args, i, level, o) && i != o && r.before.contains_key(i) && !r.before.contains_key(o) && lp_text(r.before[i], s) && denotes(s, p) }
/// the run's solution file says v; None: it makes no sense
pub open spec fn says(ls: Option<Seq<Seq<char>>>, fault: bool, nx: int, na: int, cbc: bool, v: Option<(SolverStatus, ProblemSol)>) -> bool { match v {
    Some(v) => sol_file_post(ls, fault, nx, na, cbc, Ok(v)),
    None => ls is Some && sol_bad(ls.unwrap(), fault, nx, na, cbc) } }
pub open spec fn solved_by(r: Run, prog: Seq<char>, cbc: bool, level: int, p: ProblemMilp, v: Option<(SolverStatus, ProblemSol)>) -> bool {
    exists|i: Seq<char>, o: Seq<char>, s: LpSt| #[trigger] run_for(r, prog, level, p, i, o, s) && says(file_lines(r.after, o), io_fault(o), p.c@.len() as int, p.base.b@.len() as int, cbc, v) }
pub open spec fn has_level(params: Params, level: i32) -> bool { has_param(params, "logLevel"@, SolverParam::IntParam(level)) }
pub open spec fn solve_post(params: Params, prog: Seq<char>, cbc: bool, p: ProblemMilp, a: RtWorld, b: RtWorld, r: Result<(SolverStatus, ProblemSol), SimpleError>) -> bool {
    &&& b.fs@ =~= a.fs@ || cannot_remove()
    &&& match r {
        Ok(v) => one_run(params, prog, cbc, p, a, b, Some(v)),
        Err(_) => os_fault() || !(exists|level: i32| #[trigger] has_level(params, level)) || one_run(params, prog, cbc, p, a, b, None),
    }
}
pub open spec fn one_run(params: Params, prog: Seq<char>, cbc: bool, p: ProblemMilp, a: RtWorld, b: RtWorld, v: Option<(SolverStatus, ProblemSol)>) -> bool {
    exists|level: i32| #[trigger] has_level(params, level) && b.runs@.len() == a.runs@.len() + 1 && b.runs@.drop_last() =~= a.runs@ && solved_by(b.runs@.last(), prog, cbc, level as int, p, v) }
} // verus!
