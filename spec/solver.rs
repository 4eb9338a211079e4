verus! {
// ------------------------------------------------------------- solver parameters
pub struct SimpleError { pub e: Ghost<int> }
impl SimpleError { #[verifier::external_body] pub fn new<S>(s: S) -> (r: SimpleError) { unimplemented!() } }
impl Clone for SolverParam { #[verifier::external_body] fn clone(&self) -> (r: SolverParam) ensures r == *self { unimplemented!() } }
pub broadcast axiom fn string_key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
pub broadcast axiom fn borrows_str(key: String, k: &str) ensures #[trigger] borrows::<String, str>(key, k) == (key@ == k@);
pub broadcast axiom fn string_ext(a: String, b: String) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
#[verifier::external_body] pub fn rt_get<'a, Q: ?Sized>(m: &'a HashMap<String, SolverParam>, k: &Q) -> (r: Option<&'a SolverParam>)
    ensures match r { Some(v) => exists|key: String| #[trigger] m@.contains_key(key) && borrows(key, k) && m@[key] == *v, None => forall|key: String| #[trigger] m@.contains_key(key) ==> !borrows(key, k) }
{ unimplemented!() }
pub type Params = Map<String, SolverParam>;
pub broadcast proof fn inserted_key(m: Params, k: String, v: SolverParam) ensures (#[trigger] m.insert(k, v)).contains_key(k) {}
pub broadcast group strings { string_key_model, borrows_str, string_ext, inserted_key }
pub open spec fn same_kind(a: SolverParam, b: SolverParam) -> bool { (a is IntParam && b is IntParam) || (a is FloatParam && b is FloatParam) || (a is StrParam && b is StrParam) }
/// name is a parameter, with value v
pub open spec fn has_param(m: Params, name: Seq<char>, v: SolverParam) -> bool { exists|key: String| #[trigger] m.contains_key(key) && key@ == name && m[key] == v }
pub open spec fn settable(m: Params, name: Seq<char>, v: SolverParam) -> bool { exists|key: String| #[trigger] m.contains_key(key) && key@ == name && same_kind(m[key], v) }
/// nothing but the parameter called name differs, and no parameter appears, disappears or changes kind
pub open spec fn only_changes(m: Params, m2: Params, name: Seq<char>) -> bool {
    &&& m2.dom() =~= m.dom()
    &&& forall|key: String| #[trigger] m2.contains_key(key) ==> same_kind(m[key], m2[key]) && (key@ != name ==> m2[key] == m[key])
}
pub open spec fn set_spec(m: Params, m2: Params, name: Seq<char>, v: SolverParam, ok: bool) -> bool {
    &&& ok == settable(m, name, v)
    &&& ok ==> has_param(m2, name, v) && only_changes(m, m2, name)
    &&& !ok ==> m2 =~= m
}
pub proof fn lem_set_read(m: Params, m2: Params, name: Seq<char>, v: SolverParam, w: SolverParam)
    requires set_spec(m, m2, name, v, true), has_param(m2, name, w) ensures v == w
{ broadcast use strings; }
pub proof fn lem_one_value(m: Params, n: Seq<char>)
    ensures forall|v: SolverParam, w: SolverParam| #[trigger] has_param(m, n, v) && #[trigger] has_param(m, n, w) ==> v == w
{ broadcast use strings; }
} // verus!
