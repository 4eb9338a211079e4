verus! {
// ================================================================ constraints
impl vstd::std_specs::cmp::PartialEqSpecImpl for Constraint {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Constraint) -> bool { *self == *o }
}
// derived
impl vstd::std_specs::cmp::PartialEqSpecImpl for ConstraintKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ConstraintKind) -> bool { *self == *o }
}
impl PartialEq for ConstraintKind { #[verifier::external_body] fn eq(&self, o: &ConstraintKind) -> (r: bool) { unimplemented!() } }
impl std::hash::Hash for Constraint { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Eq for Constraint {}
impl HasId for ConstraintInner { open spec fn addr(&self) -> int { id_addr(self.id@) } }
pub open spec fn cons_key(c: Constraint) -> int { c.0.addr() }
pub broadcast axiom fn km_cons() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Constraint>();
pub open spec fn c_lhs(c: Constraint) -> Node { c.0.lhs }
pub open spec fn c_rhs(c: Constraint) -> Node { c.0.rhs }
pub open spec fn c_kind(c: Constraint) -> ConstraintKind { c.0.kind }
pub open spec fn c_label(c: Constraint) -> Seq<char> { c.0.label@ }
pub open spec fn cons_is(c: Constraint, l: Node, k: ConstraintKind, r: Node, t: Seq<char>) -> bool { c_lhs(c) == l && c_kind(c) == k && c_rhs(c) == r && c_label(c) == t }
/// the constraint compares l with a number
pub open spec fn cons_is_num(c: Constraint, l: Node, k: ConstraintKind, x: F64, t: Seq<char>) -> bool { c_lhs(c) == l && c_kind(c) == k && is_const(c_rhs(c)) && cval(c_rhs(c)) == x.v@ && c_label(c) == t }
pub open spec fn cons_num_is(c: Constraint, x: F64, k: ConstraintKind, r: Node, t: Seq<char>) -> bool { is_const(c_lhs(c)) && cval(c_lhs(c)) == x.v@ && c_kind(c) == k && c_rhs(c) == r && c_label(c) == t }
/// how far l and r are from satisfying the relation
pub open spec fn viol(k: ConstraintKind, l: real, r: real) -> real {
    match k {
        ConstraintKind::Equal => if l >= r { l - r } else { r - l },
        ConstraintKind::LessEqual => if l >= r { l - r } else { 0real },
        ConstraintKind::GreaterEqual => if r >= l { r - l } else { 0real },
    }
}
pub open spec fn holds(k: ConstraintKind, l: real, r: real) -> bool {
    match k { ConstraintKind::Equal => l == r, ConstraintKind::LessEqual => l <= r, ConstraintKind::GreaterEqual => l >= r } }
pub proof fn lem_viol(k: ConstraintKind, l: real, r: real) ensures viol(k, l, r) >= 0real, viol(k, l, r) == 0real <==> holds(k, l, r) { }
} // verus!
