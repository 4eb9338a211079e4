verus! {
// ------------------------------------------------------------- files and processes
// Functions that act on the world outside get it as a parameter (config world): the files by
// name, the names handed out for temporary files, and the commands that have been run.
#[verifier::external_body] pub struct Content { _x: () }
/// an argument of a command: a text, or a number in decimal
pub enum Arg { S(Seq<char>), I(int), Other }
/// a finished run: the command line and the files before and after
pub struct Run { pub prog: Seq<char>, pub args: Seq<Arg>, pub before: Map<Seq<char>, Content>, pub after: Map<Seq<char>, Content> }
pub struct RtWorld { pub fs: Ghost<Map<Seq<char>, Content>>, pub names: Ghost<Set<Seq<char>>>, pub runs: Ghost<Seq<Run>> }
/// b differs from a in the file n at most
pub type Files = Map<Seq<char>, Content>;
pub open spec fn same_but(a: Files, b: Files, n: Seq<char>) -> bool {
    &&& forall|k: Seq<char>| k != n ==> (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k])
    &&& forall|k: Seq<char>| k != n ==> (#[trigger] b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k])
}
pub open spec fn only_file(a: RtWorld, b: RtWorld, n: Seq<char>) -> bool { same_but(a.fs@, b.fs@, n) && b.names@ == a.names@ && b.runs@ == a.runs@ }
#[verifier::external_body] pub struct IoError { _x: () }
pub enum IoErrorKind { Other, NotFound, InvalidData, InvalidInput, UnexpectedEof }
/// reported by the operating system
pub uninterp spec fn from_os(e: IoError) -> bool;
pub open spec fn os_fault() -> bool { exists|e: IoError| #[trigger] from_os(e) }
impl IoError { #[verifier::external_body] pub fn make(k: IoErrorKind, s: &str) -> (r: IoError) { unimplemented!() } }
/// the content read as text: its lines, each with its terminator
pub uninterp spec fn lines_of(c: Content) -> Seq<Seq<char>>;
pub uninterp spec fn readable(c: Content) -> bool;
/// None when the file cannot be opened
pub open spec fn file_lines(fs: Map<Seq<char>, Content>, name: Seq<char>) -> Option<Seq<Seq<char>>> { if fs.contains_key(name) && readable(fs[name]) { Some(lines_of(fs[name])) } else { None } }
pub struct File { pub name: Ghost<Seq<char>>, pub ls: Ghost<Option<Seq<Seq<char>>>> }
impl File {
    #[verifier::external_body] pub fn create(n: &str, w: &mut RtWorld) -> (r: Result<File, IoError>) ensures only_file(*old(w), *final(w), n@), match r { Ok(f) => f.name@ == n@, Err(e) => from_os(e) } { unimplemented!() }
    #[verifier::external_body] pub fn open(n: &str, w: &mut RtWorld) -> (r: Result<File, IoError>) ensures *final(w) == *old(w), (r is Ok) == (file_lines(old(w).fs@, n@) is Some), r is Ok ==> r->Ok_0.name@ == n@ && r->Ok_0.ls@ == file_lines(old(w).fs@, n@) { unimplemented!() }
}
} // verus!
