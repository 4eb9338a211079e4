verus! {
// ================================================================ expression nodes
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ Rc::<T, A>::ptr_eq ](a: &Rc<T, A>, b: &Rc<T, A>) -> (r: bool) ensures r == (a == b);
impl vstd::std_specs::cmp::PartialEqSpecImpl for Node {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Node) -> bool { *self == *o }
}
impl std::hash::Hash for Node { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Eq for Node {}
// ---------------------------------------------------------------- hashing
// what a hasher has been fed so far
pub struct RtHasher { pub s: Ghost<Seq<int>> }
/// Address of an allocation, a function of its identity; only for structures that carry one.
pub uninterp spec fn id_addr(id: int) -> int;
pub trait HasId { spec fn addr(&self) -> int; }
#[verifier::external_body] pub fn rt_ptr_hash<T: HasId>(p: &T, h: &mut RtHasher) ensures final(h).s@ == old(h).s@.push(p.addr()) { unimplemented!() }
/// only the address key has been fed, at least once
pub open spec fn hash_ok(a: Seq<int>, b: Seq<int>, key: int) -> bool { b.len() > a.len() && b.take(a.len() as int) =~= a && forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] == key }
pub open spec fn node_key(n: Node) -> int { match n {
    Node::ConstantScalar(x) => x.addr(), Node::VariableScalar(x) => x.addr(), Node::FunctionAdd(x) => x.addr(), Node::FunctionCos(x) => x.addr(),
    Node::FunctionDiv(x) => x.addr(), Node::FunctionMul(x) => x.addr(), Node::FunctionSin(x) => x.addr() } }
pub broadcast axiom fn km_node() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Node>();
pub broadcast axiom fn km_refnode() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<&Node>();
pub broadcast axiom fn bk1<V>(m: Map<&'static Node, V>, k: &Node) ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key::<&'static Node, V, Node>(m, k) <==> m.contains_key(k);
pub broadcast axiom fn bk2<V>(m: Map<&'static Node, V>, k: &Node, v: V) ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<&'static Node, V, Node>(m, k, v) <==> m.contains_key(k) && m[k] == v;

pub broadcast group hashing { km_node, km_refnode, bk1, bk2, borrows_self, vstd::std_specs::hash::group_hash_axioms }
impl HasId for ConstantScalar { open spec fn addr(&self) -> int { id_addr(self.id@) } }
impl HasId for VariableScalar { open spec fn addr(&self) -> int { id_addr(self.id@) } }
impl HasId for FunctionAdd { open spec fn addr(&self) -> int { id_addr(self.id@) } }
impl HasId for FunctionMul { open spec fn addr(&self) -> int { id_addr(self.id@) } }
impl HasId for FunctionDiv { open spec fn addr(&self) -> int { id_addr(self.id@) } }
impl HasId for FunctionSin { open spec fn addr(&self) -> int { id_addr(self.id@) } }
impl HasId for FunctionCos { open spec fn addr(&self) -> int { id_addr(self.id@) } }
pub open spec fn is_var(n: Node) -> bool { n is VariableScalar }
pub open spec fn is_const(n: Node) -> bool { n is ConstantScalar }
pub open spec fn cval(n: Node) -> FV { n->ConstantScalar_0.value.v@ }
pub open spec fn rconst(n: Node) -> bool { is_const(n) && cval(n) is R }

/// The arguments of a node, in order.
pub open spec fn args(n: Node) -> Seq<Node> {
    match n {
        Node::ConstantScalar(x) => seq![],
        Node::VariableScalar(x) => seq![],
        Node::FunctionAdd(x) => x.args@,
        Node::FunctionCos(x) => seq![x.arg],
        Node::FunctionDiv(x) => seq![x.args.0, x.args.1],
        Node::FunctionMul(x) => seq![x.args.0, x.args.1],
        Node::FunctionSin(x) => seq![x.arg],
    }
}

// ---------------------------------------------------------------- evaluation in f64 values
pub open spec fn env_of(m: Map<&Node, F64>) -> IMap<Node, FV> { IMap::new(|k: Node| m.contains_key(&k), |k: Node| m[&k].v@) }
pub open spec fn ev(n: Node, e: IMap<Node, FV>) -> FV decreases n {
    match n {
        Node::ConstantScalar(c) => c.value.v@,
        Node::VariableScalar(x) => if e.contains_key(n) { e[n] } else { FV::NaN },
        Node::FunctionAdd(x) => ev_sum(x.args@, e, x.args@.len()),
        Node::FunctionCos(x) => fv_cos(ev(x.arg, e)),
        Node::FunctionDiv(x) => fv_div(ev(x.args.0, e), ev(x.args.1, e)),
        Node::FunctionMul(x) => fv_mul(ev(x.args.0, e), ev(x.args.1, e)),
        Node::FunctionSin(x) => fv_sin(ev(x.arg, e)),
    }
}
pub open spec fn ev_sum(s: Seq<Node>, e: IMap<Node, FV>, k: nat) -> FV decreases s, k {
    if k == 0 || k > s.len() { FV::R(0real) } else { fv_add(ev_sum(s, e, (k - 1) as nat), ev(s[k - 1], e)) }
}
// ---------------------------------------------------------------- mathematical value
/// Total mathematical value of an expression at a real point m.
pub open spec fn val(n: Node, m: IMap<Node, real>) -> real decreases n {
    match n {
        Node::ConstantScalar(c) => rv(c.value),
        Node::VariableScalar(x) => m[n],
        Node::FunctionAdd(x) => val_sum(x.args@, m, x.args@.len()),
        Node::FunctionCos(x) => rcos(val(x.arg, m)),
        Node::FunctionDiv(x) => val(x.args.0, m) / val(x.args.1, m),
        Node::FunctionMul(x) => val(x.args.0, m) * val(x.args.1, m),
        Node::FunctionSin(x) => rsin(val(x.arg, m)),
    }
}
pub open spec fn val_sum(s: Seq<Node>, m: IMap<Node, real>, k: nat) -> real decreases s, k {
    if k == 0 || k > s.len() { 0real } else { val_sum(s, m, (k - 1) as nat) + val(s[k - 1], m) }
}
/// The expression is defined at m: every variable has a value, every constant is a real
/// number, no denominator is zero.
pub open spec fn ok(n: Node, m: IMap<Node, real>) -> bool decreases n {
    match n {
        Node::ConstantScalar(c) => is_r(c.value),
        Node::VariableScalar(x) => m.contains_key(n),
        Node::FunctionAdd(x) => ok_all(x.args@, m, x.args@.len()),
        Node::FunctionCos(x) => ok(x.arg, m),
        Node::FunctionDiv(x) => ok(x.args.0, m) && ok(x.args.1, m) && val(x.args.1, m) != 0real,
        Node::FunctionMul(x) => ok(x.args.0, m) && ok(x.args.1, m),
        Node::FunctionSin(x) => ok(x.arg, m),
    }
}
pub open spec fn ok_all(s: Seq<Node>, m: IMap<Node, real>, k: nat) -> bool decreases s, k {
    if k == 0 || k > s.len() { true } else { ok_all(s, m, (k - 1) as nat) && ok(s[k - 1], m) }
}
pub open spec fn lift(m: IMap<Node, real>) -> IMap<Node, FV> { m.map_values(|x: real| FV::R(x)) }

// the variable v occurs in n
pub open spec fn occ(n: Node, v: Node) -> bool decreases n {
    match n {
        Node::ConstantScalar(c) => false,
        Node::VariableScalar(x) => n == v,
        Node::FunctionAdd(x) => occ_any(x.args@, v, x.args@.len()),
        Node::FunctionCos(x) => occ(x.arg, v),
        Node::FunctionDiv(x) => occ(x.args.0, v) || occ(x.args.1, v),
        Node::FunctionMul(x) => occ(x.args.0, v) || occ(x.args.1, v),
        Node::FunctionSin(x) => occ(x.arg, v),
    }
}
pub open spec fn occ_any(s: Seq<Node>, v: Node, k: nat) -> bool decreases s, k {
    if k == 0 || k > s.len() { false } else { occ_any(s, v, (k - 1) as nat) || occ(s[k - 1], v) }
}
/// Wherever the expression is defined, evaluating it gives its mathematical value.
pub proof fn lem_ev_val(n: Node, m: IMap<Node, real>)
    requires ok(n, m),
    ensures ev(n, lift(m)) == FV::R(val(n, m)),
    decreases n,
{
    match n {
        Node::FunctionAdd(x) => { lem_ev_val_sum(x.args@, m, x.args@.len()); },
        Node::FunctionCos(x) => { lem_ev_val(args(n)[0], m); },
        Node::FunctionDiv(x) => { lem_ev_val(args(n)[0], m); lem_ev_val(args(n)[1], m); },
        Node::FunctionMul(x) => { lem_ev_val(args(n)[0], m); lem_ev_val(args(n)[1], m); },
        Node::FunctionSin(x) => { lem_ev_val(args(n)[0], m); },
        _ => {},
    }
}
pub proof fn lem_ev_val_sum(s: Seq<Node>, m: IMap<Node, real>, k: nat)
    requires ok_all(s, m, k), k <= s.len(),
    ensures ev_sum(s, lift(m), k) == FV::R(val_sum(s, m, k)),
    decreases s, k,
{
    if k > 0 { lem_ev_val_sum(s, m, (k - 1) as nat); lem_ev_val(s[k - 1], m); }
}
/// A variable without a value makes the result not-a-number.
pub proof fn lem_ev_missing(n: Node, e: IMap<Node, FV>, v: Node)
    requires occ(n, v), !e.contains_key(v),
    ensures ev(n, e) is NaN,
    decreases n,
{
    match n {
        Node::FunctionAdd(x) => { lem_ev_missing_sum(x.args@, e, v, x.args@.len()); },
        Node::FunctionCos(x) => { lem_ev_missing(args(n)[0], e, v); },
        Node::FunctionDiv(x) => { if occ(args(n)[0], v) { lem_ev_missing(args(n)[0], e, v); } else { lem_ev_missing(args(n)[1], e, v); } },
        Node::FunctionMul(x) => { if occ(args(n)[0], v) { lem_ev_missing(args(n)[0], e, v); } else { lem_ev_missing(args(n)[1], e, v); } },
        Node::FunctionSin(x) => { lem_ev_missing(args(n)[0], e, v); },
        _ => {},
    }
}
pub proof fn lem_ev_missing_sum(s: Seq<Node>, e: IMap<Node, FV>, v: Node, k: nat)
    requires occ_any(s, v, k), !e.contains_key(v), k <= s.len(),
    ensures ev_sum(s, e, k) is NaN,
    decreases s, k,
{
    if k > 0 { if occ(s[k - 1], v) { lem_ev_missing(s[k - 1], e, v); } else { lem_ev_missing_sum(s, e, v, (k - 1) as nat); } }
}
/// The value depends only on the values of the variables that occur.
pub proof fn lem_ev_dep(n: Node, e: IMap<Node, FV>, g: IMap<Node, FV>)
    requires forall|v: Node| #[trigger] occ(n, v) && is_var(v) ==> e.contains_key(v) == g.contains_key(v) && (e.contains_key(v) ==> e[v] == g[v]),
    ensures ev(n, e) == ev(n, g),
    decreases n,
{
    match n {
        Node::VariableScalar(x) => { assert(occ(n, n)); },
        Node::FunctionAdd(x) => { assert forall|v: Node| #[trigger] occ_any(x.args@, v, x.args@.len()) && is_var(v) implies e.contains_key(v) == g.contains_key(v) && (e.contains_key(v) ==> e[v] == g[v]) by { assert(occ(n, v)); } lem_ev_dep_sum(x.args@, e, g, x.args@.len()); },
        Node::FunctionCos(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} lem_ev_dep(args(n)[0], e, g); },
        Node::FunctionDiv(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} assert forall|v: Node| #[trigger] occ(args(n)[1], v) implies occ(n, v) by {} lem_ev_dep(args(n)[0], e, g); lem_ev_dep(args(n)[1], e, g); },
        Node::FunctionMul(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} assert forall|v: Node| #[trigger] occ(args(n)[1], v) implies occ(n, v) by {} lem_ev_dep(args(n)[0], e, g); lem_ev_dep(args(n)[1], e, g); },
        Node::FunctionSin(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} lem_ev_dep(args(n)[0], e, g); },
        _ => {},
    }
}
pub proof fn lem_ev_dep_sum(s: Seq<Node>, e: IMap<Node, FV>, g: IMap<Node, FV>, k: nat)
    requires forall|v: Node| #[trigger] occ_any(s, v, k) && is_var(v) ==> e.contains_key(v) == g.contains_key(v) && (e.contains_key(v) ==> e[v] == g[v]), k <= s.len(),
    ensures ev_sum(s, e, k) == ev_sum(s, g, k),
    decreases s, k,
{
    if k > 0 {
        assert forall|v: Node| #[trigger] occ(s[k - 1], v) implies occ_any(s, v, k) by {}
        assert forall|v: Node| #[trigger] occ_any(s, v, (k - 1) as nat) implies occ_any(s, v, k) by {}
        lem_ev_dep(s[k - 1], e, g); lem_ev_dep_sum(s, e, g, (k - 1) as nat);
    }
}
// ---------------------------------------------------------------- operators
/// Operand as a node.
pub trait Nd { spec fn nd(self) -> Node; }
impl Nd for Node { open spec fn nd(self) -> Node { self } }
impl<'a> Nd for &'a Node { open spec fn nd(self) -> Node { *self } }
impl FunctionAdd { #[verifier::type_invariant] spec fn tinv(&self) -> bool { self.args@.len() >= 2 } }
pub fn add_inv(x: &FunctionAdd) ensures x.args@.len() >= 2 { proof { use_type_invariant(x); } }

pub open spec fn add_nn(a: Node, b: Node, r: Node) -> bool { forall|m: IMap<Node, real>| #![trigger ok(a, m), ok(b, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) && ok(b, m) ==> ok(r, m) && val(r, m) == val(a, m) + val(b, m) }
pub open spec fn add_nf(a: Node, c: F64, r: Node) -> bool { is_r(c) ==> forall|m: IMap<Node, real>| #![trigger ok(a, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) ==> ok(r, m) && val(r, m) == val(a, m) + rv(c) }
pub open spec fn sub_nn(a: Node, b: Node, r: Node) -> bool { forall|m: IMap<Node, real>| #![trigger ok(a, m), ok(b, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) && ok(b, m) ==> ok(r, m) && val(r, m) == val(a, m) - val(b, m) }
pub open spec fn sub_nf(a: Node, c: F64, r: Node) -> bool { is_r(c) ==> forall|m: IMap<Node, real>| #![trigger ok(a, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) ==> ok(r, m) && val(r, m) == val(a, m) - rv(c) }
pub open spec fn sub_fn(c: F64, b: Node, r: Node) -> bool { is_r(c) ==> forall|m: IMap<Node, real>| #![trigger ok(b, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(b, m) ==> ok(r, m) && val(r, m) == rv(c) - val(b, m) }
pub open spec fn mul_nn(a: Node, b: Node, r: Node) -> bool { forall|m: IMap<Node, real>| #![trigger ok(a, m), ok(b, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) && ok(b, m) ==> ok(r, m) && val(r, m) == val(a, m) * val(b, m) }
pub open spec fn mul_nf(a: Node, c: F64, r: Node) -> bool { is_r(c) ==> forall|m: IMap<Node, real>| #![trigger ok(a, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) ==> ok(r, m) && val(r, m) == val(a, m) * rv(c) }
pub open spec fn neg_n(a: Node, r: Node) -> bool { forall|m: IMap<Node, real>| #![trigger ok(a, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) ==> ok(r, m) && val(r, m) == -val(a, m) }
pub open spec fn div_nn(a: Node, b: Node, r: Node) -> bool { forall|m: IMap<Node, real>| #![trigger ok(a, m), ok(b, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) && ok(b, m) && val(b, m) != 0real ==> ok(r, m) && val(r, m) == val(a, m) / val(b, m) }
pub open spec fn div_nf(a: Node, c: F64, r: Node) -> bool { is_r(c) ==> forall|m: IMap<Node, real>| #![trigger ok(a, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(a, m) && rv(c) != 0real ==> ok(r, m) && val(r, m) == val(a, m) / rv(c) }
pub open spec fn div_fn(c: F64, b: Node, r: Node) -> bool { is_r(c) ==> forall|m: IMap<Node, real>| #![trigger ok(b, m)] #![trigger ok(r, m)] #![trigger val(r, m)]
    ok(b, m) && val(b, m) != 0real ==> ok(r, m) && val(r, m) == rv(c) / val(b, m) }

// running sum of the operands of an addition: args plus the constant c
pub open spec fn accd(s: Seq<Node>, c: F64, m: IMap<Node, real>, t: real) -> bool { ok_all(s, m, s.len()) && is_r(c) && val_sum(s, m, s.len()) + rv(c) == t }
pub open spec fn sum2(a: Node, b: Node, s: Seq<Node>, c: F64) -> bool { forall|m: IMap<Node, real>| #![trigger ok(a, m), ok(b, m)] ok(a, m) && ok(b, m) ==> accd(s, c, m, val(a, m) + val(b, m)) }
pub open spec fn sum1(a: Node, b: F64, s: Seq<Node>, c: F64) -> bool { is_r(b) ==> forall|m: IMap<Node, real>| #![trigger ok(a, m)] ok(a, m) ==> accd(s, c, m, val(a, m) + rv(b)) }
pub open spec fn opsum(ops: Seq<Node>, s: Seq<Node>, c: F64, k: nat) -> bool {
    forall|m: IMap<Node, real>| #![trigger ok_all(ops, m, ops.len())] ok_all(ops, m, ops.len()) ==> accd(s, c, m, val_sum(ops, m, k)) }
pub open spec fn opsum2(ops: Seq<Node>, s: Seq<Node>, c: F64, k: nat, q: Seq<Node>, j: nat) -> bool {
    forall|m: IMap<Node, real>| #![trigger ok_all(ops, m, ops.len())] ok_all(ops, m, ops.len()) ==> accd(s, c, m, val_sum(ops, m, k) + val_sum(q, m, j)) }

pub proof fn lem_prefix(s: Seq<Node>, t: Seq<Node>, m: IMap<Node, real>, k: nat)
    requires k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i],
    ensures ok_all(s, m, k) == ok_all(t, m, k), val_sum(s, m, k) == val_sum(t, m, k),
    decreases k,
{
    if k > 0 { lem_prefix(s, t, m, (k - 1) as nat); assert(s[k - 1] == t[k - 1]); }
}
pub proof fn lem_ok_all(s: Seq<Node>, m: IMap<Node, real>, k: nat)
    requires k <= s.len(),
    ensures ok_all(s, m, k) <==> (forall|i: int| 0 <= i < k ==> ok(#[trigger] s[i], m)),
    decreases k,
{
    if k > 0 { lem_ok_all(s, m, (k - 1) as nat);
        if ok_all(s, m, k) { assert forall|i: int| 0 <= i < k implies ok(#[trigger] s[i], m) by { if i == k - 1 {} } }
        else if forall|i: int| 0 <= i < k ==> ok(#[trigger] s[i], m) { assert(ok(s[k - 1], m)); assert(forall|i: int| 0 <= i < k - 1 ==> ok(#[trigger] s[i], m)); }
    }
}
pub open spec fn push_fact(t: Seq<Node>, s: Seq<Node>, x: Node) -> bool {
    &&& forall|m: IMap<Node, real>| #[trigger] ok_all(t, m, t.len()) == (ok_all(s, m, s.len()) && ok(x, m))
    &&& forall|m: IMap<Node, real>| #[trigger] val_sum(t, m, t.len()) == val_sum(s, m, s.len()) + val(x, m)
}
pub broadcast proof fn lem_push(s: Seq<Node>, x: Node)
    ensures push_fact(#[trigger] s.push(x), s, x),
{
    let t = s.push(x);
    assert forall|m: IMap<Node, real>| #[trigger] ok_all(t, m, t.len()) == (ok_all(s, m, s.len()) && ok(x, m)) by { lem_prefix(s, t, m, s.len()); assert(t[t.len() - 1] == x); }
    assert forall|m: IMap<Node, real>| #[trigger] val_sum(t, m, t.len()) == val_sum(s, m, s.len()) + val(x, m) by { lem_prefix(s, t, m, s.len()); assert(t[t.len() - 1] == x); }
}
pub broadcast proof fn lem_one_ok(s: Seq<Node>, m: IMap<Node, real>)
    ensures s.len() >= 1 ==> #[trigger] ok_all(s, m, 1) == ok(s[0], m),
{ reveal_with_fuel(ok_all, 3); }
pub broadcast proof fn lem_one_val(s: Seq<Node>, m: IMap<Node, real>)
    ensures s.len() >= 1 ==> #[trigger] val_sum(s, m, 1) == val(s[0], m),
{ reveal_with_fuel(val_sum, 3); }
pub open spec fn all_ok_at(s: Seq<Node>, i: int) -> bool { forall|m: IMap<Node, real>| #[trigger] ok_all(s, m, s.len()) ==> ok(s[i], m) }
pub proof fn lem_ok_at(s: Seq<Node>, i: int)
    requires 0 <= i < s.len(),
    ensures all_ok_at(s, i),
{
    assert forall|m: IMap<Node, real>| #[trigger] ok_all(s, m, s.len()) implies ok(s[i], m) by { lem_ok_all(s, m, s.len()); }
}
pub open spec fn is_two(s: Seq<Node>, a: Node, b: Node) -> bool {
    &&& s.len() == 2 && s[0] == a && s[1] == b
    &&& forall|m: IMap<Node, real>| #![trigger ok_all(s, m, 2)] #![trigger ok(a, m), ok(b, m)] ok_all(s, m, 2) == (ok(a, m) && ok(b, m))
    &&& forall|m: IMap<Node, real>| #[trigger] val_sum(s, m, 2) == val(a, m) + val(b, m)
    &&& forall|m: IMap<Node, real>| #[trigger] val_sum(s, m, 0) == 0real
}
pub proof fn lem_two(s: Seq<Node>, a: Node, b: Node)
    requires s.len() == 2, s[0] == a, s[1] == b,
    ensures is_two(s, a, b),
{
    reveal_with_fuel(ok_all, 3); reveal_with_fuel(val_sum, 3);
}
// each out[i] is a*xs[i]
pub open spec fn muls(a: Node, xs: Seq<Node>, out: Seq<Node>, k: int) -> bool { forall|i: int| 0 <= i < k ==> mul_nn(a, #[trigger] xs[i], out[i]) }
pub open spec fn muls_r(xs: Seq<Node>, b: Node, out: Seq<Node>, k: int) -> bool { forall|i: int| 0 <= i < k ==> mul_nn(#[trigger] xs[i], b, out[i]) }
pub proof fn lem_muls_r(xs: Seq<Node>, b: Node, out: Seq<Node>)
    requires xs.len() == out.len(), muls_r(xs, b, out, xs.len() as int),
    ensures forall|m: IMap<Node, real>| #![trigger ok(b, m), ok_all(xs, m, xs.len())] ok(b, m) && ok_all(xs, m, xs.len()) ==> scaled(val(b, m), xs, out, m, xs.len()),
{
    assert forall|i: int| 0 <= i < xs.len() implies mul_nn(b, #[trigger] xs[i], out[i]) by {
        assert(mul_nn(xs[i], b, out[i]));
        assert forall|m: IMap<Node, real>| ok(b, m) && ok(xs[i], m) implies ok(out[i], m) && val(out[i], m) == val(b, m) * val(xs[i], m) by { lem_mulfacts(val(b, m), val(xs[i], m)); }
    }
    lem_muls(b, xs, out);
}
pub open spec fn muls_f(c: F64, xs: Seq<Node>, out: Seq<Node>, k: int) -> bool { forall|i: int| 0 <= i < k ==> mul_nf(#[trigger] xs[i], c, out[i]) }
pub open spec fn scaled(a: real, xs: Seq<Node>, out: Seq<Node>, m: IMap<Node, real>, k: nat) -> bool { ok_all(out, m, k) && val_sum(out, m, k) == a * val_sum(xs, m, k) }
pub proof fn lem_scale(a: real, xs: Seq<Node>, out: Seq<Node>, m: IMap<Node, real>, k: nat)
    requires k <= xs.len(), xs.len() == out.len(), forall|i: int| 0 <= i < k ==> ok(#[trigger] out[i], m) && val(out[i], m) == a * val(xs[i], m),
    ensures scaled(a, xs, out, m, k),
    decreases k,
{
    if k > 0 { lem_scale(a, xs, out, m, (k - 1) as nat); let i = k - 1; assert(ok(out[i], m));
        let p = val_sum(xs, m, (k - 1) as nat); let q = val(xs[i], m);
        assert(a * (p + q) == a * p + a * q) by (nonlinear_arith); }
    else { assert(a * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn lem_muls(a: Node, xs: Seq<Node>, out: Seq<Node>)
    requires xs.len() == out.len(), muls(a, xs, out, xs.len() as int),
    ensures forall|m: IMap<Node, real>| #![trigger ok(a, m), ok_all(xs, m, xs.len())] ok(a, m) && ok_all(xs, m, xs.len()) ==> scaled(val(a, m), xs, out, m, xs.len()),
{
    assert forall|m: IMap<Node, real>| #![trigger ok(a, m), ok_all(xs, m, xs.len())] ok(a, m) && ok_all(xs, m, xs.len()) implies scaled(val(a, m), xs, out, m, xs.len()) by {
        lem_ok_all(xs, m, xs.len());
        assert forall|i: int| 0 <= i < xs.len() implies ok(#[trigger] out[i], m) && val(out[i], m) == val(a, m) * val(xs[i], m) by { assert(ok(xs[i], m)); assert(mul_nn(a, xs[i], out[i])); }
        lem_scale(val(a, m), xs, out, m, xs.len());
    }
}
pub proof fn lem_muls_f(c: F64, xs: Seq<Node>, out: Seq<Node>)
    requires xs.len() == out.len(), muls_f(c, xs, out, xs.len() as int), is_r(c),
    ensures forall|m: IMap<Node, real>| #![trigger ok_all(xs, m, xs.len())] ok_all(xs, m, xs.len()) ==> scaled(rv(c), xs, out, m, xs.len()),
{
    assert forall|m: IMap<Node, real>| #![trigger ok_all(xs, m, xs.len())] ok_all(xs, m, xs.len()) implies scaled(rv(c), xs, out, m, xs.len()) by {
        lem_ok_all(xs, m, xs.len());
        assert forall|i: int| 0 <= i < xs.len() implies ok(#[trigger] out[i], m) && val(out[i], m) == rv(c) * val(xs[i], m) by { assert(ok(xs[i], m)); assert(mul_nf(xs[i], c, out[i])); lem_mulfacts(val(xs[i], m), rv(c)); }
        lem_scale(rv(c), xs, out, m, xs.len());
    }
}
pub proof fn lem_mulfacts(x: real, y: real)
    ensures x == 0real ==> x * y == 0real, y == 0real ==> x * y == 0real, x == 1real ==> x * y == y, y == 1real ==> x * y == x, x * y == y * x,
{
    assert(x == 0real ==> x * y == 0real) by (nonlinear_arith); assert(y == 0real ==> x * y == 0real) by (nonlinear_arith);
    assert(x == 1real ==> x * y == y) by (nonlinear_arith); assert(y == 1real ==> x * y == x) by (nonlinear_arith); assert(x * y == y * x) by (nonlinear_arith);
}
/// ok and val of a node in terms of its arguments
pub proof fn lem_unf(n: Node, m: IMap<Node, real>)
    ensures
        n is FunctionAdd ==> ok(n, m) == ok_all(args(n), m, args(n).len()) && val(n, m) == val_sum(args(n), m, args(n).len()),
        n is FunctionMul ==> ok(n, m) == (ok(args(n)[0], m) && ok(args(n)[1], m)) && val(n, m) == val(args(n)[0], m) * val(args(n)[1], m),
        n is FunctionDiv ==> ok(n, m) == (ok(args(n)[0], m) && ok(args(n)[1], m) && val(args(n)[1], m) != 0real) && val(n, m) == val(args(n)[0], m) / val(args(n)[1], m),
        n is FunctionSin ==> ok(n, m) == ok(args(n)[0], m) && val(n, m) == rsin(val(args(n)[0], m)),
        n is FunctionCos ==> ok(n, m) == ok(args(n)[0], m) && val(n, m) == rcos(val(args(n)[0], m)),
{ }
pub open spec fn zconst(n: Node) -> bool { is_const(n) && cval(n) == FV::R(0real) }
pub proof fn lem_divfacts(x: real, y: real)
    ensures y != 0real && x == 0real ==> x / y == 0real, y == 1real ==> x / y == x,
{ assert(y != 0real && x == 0real ==> x / y == 0real) by (nonlinear_arith); assert(y == 1real ==> x / y == x) by (nonlinear_arith); }
// ---------------------------------------------------------------- derivatives
impl FunctionDiv { #[verifier::type_invariant] spec fn tinv(&self) -> bool { !zconst(self.args.1) } }
pub fn div_inv(x: &FunctionDiv) ensures !zconst(x.args.1) { proof { use_type_invariant(x); } }
#[verifier::external_body] pub fn ptr_same<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

/// Value at m of the partial derivative of n with respect to its argument arg (all its
/// occurrences but one held fixed when arg occurs twice).
pub open spec fn pv_mul(a: Node, b: Node, arg: Node, m: IMap<Node, real>) -> real { if a == arg { val(b, m) } else if b == arg { val(a, m) } else { 0real } }
pub open spec fn pv_div(a: Node, b: Node, arg: Node, m: IMap<Node, real>) -> real {
    if a == arg && b == arg { 0real } else if a == arg { 1real / val(b, m) } else if b == arg { (-val(a, m)) / (val(b, m) * val(b, m)) } else { 0real } }
pub open spec fn pv(n: Node, arg: Node, m: IMap<Node, real>) -> real {
    match n {
        Node::ConstantScalar(c) => 0real,
        Node::VariableScalar(x) => if n == arg { 1real } else { 0real },
        Node::FunctionAdd(x) => if x.args@.contains(arg) { 1real } else { 0real },
        Node::FunctionCos(x) => if x.arg == arg { -rsin(val(x.arg, m)) } else { 0real },
        Node::FunctionDiv(x) => pv_div(x.args.0, x.args.1, arg, m),
        Node::FunctionMul(x) => pv_mul(x.args.0, x.args.1, arg, m),
        Node::FunctionSin(x) => if x.arg == arg { rcos(val(x.arg, m)) } else { 0real },
    }
}
/// The partial derivative of n with respect to the variable v at m, by the rules of
/// differentiation.
pub open spec fn der(n: Node, v: Node, m: IMap<Node, real>) -> real decreases n {
    match n {
        Node::ConstantScalar(c) => 0real,
        Node::VariableScalar(x) => if n == v { 1real } else { 0real },
        Node::FunctionAdd(x) => der_sum(x.args@, v, m, x.args@.len()),
        Node::FunctionCos(x) => -rsin(val(x.arg, m)) * der(x.arg, v, m),
        Node::FunctionDiv(x) => (der(x.args.0, v, m) * val(x.args.1, m) - val(x.args.0, m) * der(x.args.1, v, m)) / (val(x.args.1, m) * val(x.args.1, m)),
        Node::FunctionMul(x) => val(x.args.0, m) * der(x.args.1, v, m) + der(x.args.0, v, m) * val(x.args.1, m),
        Node::FunctionSin(x) => rcos(val(x.arg, m)) * der(x.arg, v, m),
    }
}
pub open spec fn der_sum(s: Seq<Node>, v: Node, m: IMap<Node, real>, k: nat) -> real decreases s, k {
    if k == 0 || k > s.len() { 0real } else { der_sum(s, v, m, (k - 1) as nat) + der(s[k - 1], v, m) }
}
/// Chain rule: sum over the first k arguments of partial times inner derivative.
pub open spec fn psum(n: Node, v: Node, m: IMap<Node, real>, k: nat) -> real decreases k {
    if k == 0 { 0real } else { psum(n, v, m, (k - 1) as nat) + pv(n, args(n)[k - 1], m) * der(args(n)[k - 1], v, m) }
}
pub proof fn lem_psum_add(n: Node, v: Node, m: IMap<Node, real>, k: nat)
    requires n is FunctionAdd, k <= args(n).len(),
    ensures psum(n, v, m, k) == der_sum(args(n), v, m, k),
    decreases k,
{
    if k > 0 { lem_psum_add(n, v, m, (k - 1) as nat); assert(args(n).contains(args(n)[k - 1])); assert(pv(n, args(n)[k - 1], m) == 1real);
        lem_mulfacts(1real, der(args(n)[k - 1], v, m)); }
}
pub proof fn lem_quot(a: real, w: real) requires w != 0real, ensures (a / w) * w == a { assert((a / w) * w == a) by (nonlinear_arith) requires w != 0real; }
pub proof fn lem_cancel(a: real, b: real, w: real) requires w != 0real, a * w == b * w, ensures a == b {
    let d = a - b;
    assert(d * w == 0real) by (nonlinear_arith) requires a * w == b * w, d == a - b;
    assert(d == 0real) by (nonlinear_arith) requires d * w == 0real, w != 0real; }
pub proof fn lem_assoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c) { assert((a * b) * c == a * (b * c)) by (nonlinear_arith); }
pub proof fn lem_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lem_distr(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c { assert((a + b) * c == a * c + b * c) by (nonlinear_arith); }
pub proof fn lem_poly(p: real, q: real, d0: real, d1: real, v1: real)
    ensures (p * d0 + q * d1) * (v1 * v1) == (p * v1) * (d0 * v1) + (q * (v1 * v1)) * d1
{
    let w = v1 * v1;
    lem_distr(p * d0, q * d1, w);
    // (p d0) w == p (d0 (v1 v1)) == p (v1 (d0 v1)) == (p v1) (d0 v1)
    lem_assoc(p, d0, w); lem_assoc(d0, v1, v1); lem_comm(d0 * v1, v1); lem_assoc(p, v1, d0 * v1);
    // (q d1) w == q (w d1) == (q w) d1
    lem_assoc(q, d1, w); lem_comm(d1, w); lem_assoc(q, w, d1);
}
pub proof fn lem_div_chain(d0: real, d1: real, v0: real, v1: real)
    requires v1 != 0real,
    ensures (1real / v1) * d0 + ((-v0) / (v1 * v1)) * d1 == (d0 * v1 - v0 * d1) / (v1 * v1),
{
    assert(v1 * v1 != 0real) by (nonlinear_arith) requires v1 != 0real;
    let p = 1real / v1; let q = (-v0) / (v1 * v1); let num = d0 * v1 - v0 * d1;
    lem_quot(1real, v1); lem_quot(-v0, v1 * v1); lem_quot(num, v1 * v1);
    lem_poly(p, q, d0, d1, v1);
    lem_lin(p, q, d0, d1, v0, v1);
    lem_cancel(p * d0 + q * d1, num / (v1 * v1), v1 * v1);
}
pub proof fn lem_lin(p: real, q: real, d0: real, d1: real, v0: real, v1: real)
    requires p * v1 == 1real, q * (v1 * v1) == -v0,
    ensures (p * v1) * (d0 * v1) + (q * (v1 * v1)) * d1 == d0 * v1 - v0 * d1,
{
    let x = d0 * v1; let a = p * v1; let b = q * (v1 * v1);
    assert(a * x == x) by (nonlinear_arith) requires a == 1real;
    assert(b * d1 == -(v0 * d1)) by (nonlinear_arith) requires b == -v0;
}
/// The derivative is the sum over the arguments of partial times inner derivative.
pub proof fn lem_chain(n: Node, v: Node, m: IMap<Node, real>)
    requires ok(n, m), !is_var(n),
    ensures der(n, v, m) == psum(n, v, m, args(n).len()),
{
    reveal_with_fuel(psum, 3);
    lem_unf(n, m);
    match n {
        Node::ConstantScalar(c) => {},
        Node::VariableScalar(x) => {},
        Node::FunctionAdd(x) => { lem_psum_add(n, v, m, args(n).len()); },
        Node::FunctionCos(x) => {},
        Node::FunctionDiv(x) => {
            let (d0, d1, v0, v1) = (der(args(n)[0], v, m), der(args(n)[1], v, m), val(args(n)[0], m), val(args(n)[1], m));
            assert(v1 != 0real);
            if args(n)[0] == args(n)[1] {
                assert(d0 * v1 - v0 * d1 == 0real) by (nonlinear_arith) requires d0 == d1, v0 == v1;
                assert(v1 * v1 != 0real) by (nonlinear_arith) requires v1 != 0real;
                lem_divfacts(0real, v1 * v1); lem_mulfacts(0real, d0);
            } else { lem_div_chain(d0, d1, v0, v1); }
        },
        Node::FunctionMul(x) => {
            let (d0, d1, v0, v1) = (der(args(n)[0], v, m), der(args(n)[1], v, m), val(args(n)[0], m), val(args(n)[1], m));
            lem_mulfacts(d0, v1); lem_mulfacts(v0, d1);
        },
        Node::FunctionSin(x) => {},
    }
}
/// Zero for variables that do not occur.
pub proof fn lem_der_absent(n: Node, v: Node, m: IMap<Node, real>)
    requires !occ(n, v), ok(n, m),
    ensures der(n, v, m) == 0real,
    decreases n,
{
    lem_unf(n, m);
    match n {
        Node::FunctionAdd(x) => { lem_der_absent_sum(x.args@, v, m, x.args@.len()); },
        Node::FunctionCos(x) => { lem_der_absent(args(n)[0], v, m); lem_mulfacts(-rsin(val(args(n)[0], m)), 0real); },
        Node::FunctionSin(x) => { lem_der_absent(args(n)[0], v, m); lem_mulfacts(rcos(val(args(n)[0], m)), 0real); },
        Node::FunctionDiv(x) => { lem_der_absent(args(n)[0], v, m); lem_der_absent(args(n)[1], v, m);
            let (v0, v1) = (val(args(n)[0], m), val(args(n)[1], m)); lem_mulfacts(0real, v1); lem_mulfacts(v0, 0real);
            assert(v1 * v1 != 0real) by (nonlinear_arith) requires v1 != 0real; lem_divfacts(0real, v1 * v1); },
        Node::FunctionMul(x) => { lem_der_absent(args(n)[0], v, m); lem_der_absent(args(n)[1], v, m); lem_mulfacts(0real, val(args(n)[1], m)); lem_mulfacts(val(args(n)[0], m), 0real); },
        _ => {},
    }
}
pub proof fn lem_der_absent_sum(s: Seq<Node>, v: Node, m: IMap<Node, real>, k: nat)
    requires !occ_any(s, v, k), ok_all(s, m, k), k <= s.len(),
    ensures der_sum(s, v, m, k) == 0real,
    decreases s, k,
{
    if k > 0 { lem_der_absent(s[k - 1], v, m); lem_der_absent_sum(s, v, m, (k - 1) as nat); }
}
pub open spec fn nz2(x: real) -> bool { x * x != 0real }
pub proof fn lem_nz2(x: real) requires x != 0real, ensures nz2(x) { assert(x * x != 0real) by (nonlinear_arith) requires x != 0real; }
// contract of partial
pub open spec fn part_r(n: Node, arg: Node, r: Node) -> bool { forall|m: IMap<Node, real>| #![trigger ok(n, m)] #![trigger ok(r, m)] ok(n, m) ==> ok(r, m) && val(r, m) == pv(n, arg, m) }
} // verus!
verus! {
// ---------------------------------------------------------------- paths and the chain rule
/// p is a path: every node after the first is an argument of the one before
pub open spec fn is_path(p: Seq<Node>) -> bool { p.len() >= 1 && forall|i: int| 0 <= i < p.len() - 1 ==> args(#[trigger] p[i]).contains(p[i + 1]) }
/// product of the partials along the first k nodes of a path
pub open spec fn pprod(p: Seq<Node>, m: IMap<Node, real>, k: nat) -> real decreases k {
    if k <= 1 || k > p.len() { 1real } else { pprod(p, m, (k - 1) as nat) * pv(p[k - 2], p[k - 1], m) }
}
pub open spec fn path_from(n: Node, p: Seq<Node>) -> bool { is_path(p) && p[0] == n }
pub open spec fn path_to(n: Node, v: Node, p: Seq<Node>) -> bool { path_from(n, p) && p[p.len() - 1] == v }
/// sum over paths of the product of partials
pub open spec fn fsum(s: Seq<Vec<Node>>, m: IMap<Node, real>, k: nat) -> real decreases k {
    if k == 0 || k > s.len() { 0real } else { fsum(s, m, (k - 1) as nat) + pprod(s[k - 1]@, m, s[k - 1]@.len()) }
}
/// what is still to be collected from a queue of unfinished paths
pub open spec fn witem(p: Seq<Node>, v: Node, m: IMap<Node, real>) -> real { pprod(p, m, p.len()) * der(p[p.len() - 1], v, m) }
pub open spec fn wsum(s: Seq<Vec<Node>>, v: Node, m: IMap<Node, real>) -> real decreases s.len() {
    if s.len() == 0 { 0real } else { wsum(s.drop_first(), v, m) + witem(s[0]@, v, m) }
}
/// what the arguments from the k-th on contribute
pub open spec fn prest(n: Node, v: Node, m: IMap<Node, real>, k: nat) -> real { psum(n, v, m, args(n).len()) - psum(n, v, m, k) }
// size of the expression written out as a tree
pub open spec fn tsz(n: Node) -> nat decreases n {
    match n {
        Node::ConstantScalar(c) => 1,
        Node::VariableScalar(x) => 1,
        Node::FunctionAdd(x) => 1 + tsz_sum(x.args@, x.args@.len()),
        Node::FunctionCos(x) => 1 + tsz(x.arg),
        Node::FunctionDiv(x) => 1 + tsz(x.args.0) + tsz(x.args.1),
        Node::FunctionMul(x) => 1 + tsz(x.args.0) + tsz(x.args.1),
        Node::FunctionSin(x) => 1 + tsz(x.arg),
    }
}
pub open spec fn tsz_sum(s: Seq<Node>, k: nat) -> nat decreases s, k {
    if k == 0 || k > s.len() { 0 } else { tsz_sum(s, (k - 1) as nat) + tsz(s[k - 1]) }
}
pub open spec fn asz(n: Node, k: nat) -> nat decreases k { if k == 0 || k > args(n).len() { 0 } else { asz(n, (k - 1) as nat) + tsz(args(n)[k - 1]) } }
pub proof fn lem_asz_add(n: Node, k: nat) requires n is FunctionAdd, k <= args(n).len(), ensures asz(n, k) == tsz_sum(args(n), k), decreases k, { if k > 0 { lem_asz_add(n, (k - 1) as nat); } }
pub proof fn lem_tsz(n: Node) ensures tsz(n) == 1 + asz(n, args(n).len()) {
    reveal_with_fuel(asz, 3);
    match n { Node::FunctionAdd(x) => { lem_asz_add(n, args(n).len()); }, _ => {} }
}
pub open spec fn wtsz(s: Seq<Vec<Node>>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { wtsz(s.drop_first()) + tsz(s[0]@[s[0]@.len() - 1]) } }

pub proof fn lem_pprod_prefix(p: Seq<Node>, q: Seq<Node>, m: IMap<Node, real>, k: nat)
    requires k <= p.len(), k <= q.len(), forall|i: int| 0 <= i < k ==> p[i] == q[i],
    ensures pprod(p, m, k) == pprod(q, m, k),
    decreases k,
{ if k > 1 { lem_pprod_prefix(p, q, m, (k - 1) as nat); } }
pub proof fn lem_fsum_prefix(s: Seq<Vec<Node>>, t: Seq<Vec<Node>>, m: IMap<Node, real>, k: nat)
    requires k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i],
    ensures fsum(s, m, k) == fsum(t, m, k),
    decreases k,
{ if k > 0 { lem_fsum_prefix(s, t, m, (k - 1) as nat); } }
pub proof fn lem_fsum_push(s: Seq<Vec<Node>>, x: Vec<Node>, m: IMap<Node, real>)
    ensures fsum(s.push(x), m, s.push(x).len()) == fsum(s, m, s.len()) + pprod(x@, m, x@.len()),
{ lem_fsum_prefix(s, s.push(x), m, s.len()); }
pub proof fn lem_push_front(s: Seq<Vec<Node>>, x: Vec<Node>, t: Seq<Vec<Node>>)
    requires t == seq![x] + s, x@.len() >= 1,
    ensures wtsz(t) == wtsz(s) + tsz(x@[x@.len() - 1]), forall|v: Node, m: IMap<Node, real>| #[trigger] wsum(t, v, m) == wsum(s, v, m) + witem(x@, v, m),
{ assert(t.drop_first() =~= s); }
pub proof fn lem_wsum_append(s: Seq<Vec<Node>>, x: Vec<Node>, v: Node, m: IMap<Node, real>)
    ensures wsum(s.push(x), v, m) == wsum(s, v, m) + witem(x@, v, m),
    decreases s.len(),
{
    let t = s.push(x);
    if s.len() == 0 { assert(t.drop_first() =~= seq![]); assert(wsum(t.drop_first(), v, m) == 0real); }
    else { assert(t.drop_first() =~= s.drop_first().push(x)); lem_wsum_append(s.drop_first(), x, v, m); }
}
pub proof fn lem_wtsz_append(s: Seq<Vec<Node>>, x: Vec<Node>)
    ensures wtsz(s.push(x)) == wtsz(s) + tsz(x@[x@.len() - 1]),
    decreases s.len(),
{
    let t = s.push(x);
    if s.len() == 0 { assert(t.drop_first() =~= seq![]); assert(wtsz(t.drop_first()) == 0); }
    else { assert(t.drop_first() =~= s.drop_first().push(x)); lem_wtsz_append(s.drop_first(), x); }
}
/// Adding one path to either end of the queue.
pub proof fn lem_wq_add(s: Seq<Vec<Node>>, x: Vec<Node>, t: Seq<Vec<Node>>)
    requires t == seq![x] + s || t == s.push(x), x@.len() >= 1,
    ensures wtsz(t) == wtsz(s) + tsz(x@[x@.len() - 1]), forall|v: Node, m: IMap<Node, real>| #[trigger] wsum(t, v, m) == wsum(s, v, m) + witem(x@, v, m),
{
    if t == seq![x] + s { lem_push_front(s, x, t); }
    else { lem_wtsz_append(s, x); assert forall|v: Node, m: IMap<Node, real>| #[trigger] wsum(t, v, m) == wsum(s, v, m) + witem(x@, v, m) by { lem_wsum_append(s, x, v, m); } }
}
/// One more step along an argument.
pub proof fn lem_witem_step(p: Seq<Node>, a: Node, v: Node, m: IMap<Node, real>)
    requires p.len() >= 1,
    ensures witem(p.push(a), v, m) == pprod(p, m, p.len()) * (pv(p[p.len() - 1], a, m) * der(a, v, m)),
{
    let q = p.push(a);
    lem_pprod_prefix(p, q, m, p.len());
    lem_assoc(pprod(p, m, p.len()), pv(p[p.len() - 1], a, m), der(a, v, m));
}
/// A non-variable's share is the sum of its arguments' shares.
pub proof fn lem_witem_split(p: Seq<Node>, v: Node, m: IMap<Node, real>)
    requires p.len() >= 1, !is_var(p[p.len() - 1]), ok(p[p.len() - 1], m),
    ensures witem(p, v, m) == pprod(p, m, p.len()) * psum(p[p.len() - 1], v, m, args(p[p.len() - 1]).len()),
{ lem_chain(p[p.len() - 1], v, m); }
pub proof fn lem_ok_args(n: Node, m: IMap<Node, real>)
    requires ok(n, m),
    ensures forall|i: int| 0 <= i < args(n).len() ==> ok(#[trigger] args(n)[i], m),
{ lem_unf(n, m); match n { Node::FunctionAdd(x) => { lem_ok_all(args(n), m, args(n).len()); }, _ => {} } }
pub proof fn lem_ok_path(p: Seq<Node>, m: IMap<Node, real>, k: nat)
    requires is_path(p), ok(p[0], m), k < p.len(),
    ensures ok(p[k as int], m),
    decreases k,
{
    if k > 0 { lem_ok_path(p, m, (k - 1) as nat); lem_ok_args(p[k - 1], m); assert(args(p[k - 1]).contains(p[k - 1 + 1])); }
}
pub open spec fn all_paths(s: Seq<Vec<Node>>, n: Node) -> bool { forall|i: int| 0 <= i < s.len() ==> path_from(n, (#[trigger] s[i])@) }
pub open spec fn all_paths_to(s: Seq<Vec<Node>>, n: Node, v: Node) -> bool { forall|i: int| 0 <= i < s.len() ==> path_to(n, v, (#[trigger] s[i])@) }
pub open spec fn in_vars(vars: Seq<&Node>, k: Node) -> bool { exists|i: int| 0 <= i < vars.len() && *(#[trigger] vars[i]) == k }
/// contract of all_simple_paths
pub open spec fn paths_ok(n: Node, vars: Seq<&Node>, r: Map<Node, Vec<Vec<Node>>>) -> bool {
    &&& forall|k: Node| #[trigger] r.contains_key(k) <==> in_vars(vars, k)
    &&& forall|k: Node| #[trigger] r.contains_key(k) ==> all_paths_to(r[k]@, n, k)
    &&& forall|k: Node, m: IMap<Node, real>| #![trigger r.contains_key(k), ok(n, m)] r.contains_key(k) && ok(n, m) ==> fsum(r[k]@, m, r[k]@.len()) == der(n, k, m)
}
/// contract of derivatives
pub open spec fn der_ok(n: Node, v: Node, d: Node) -> bool { forall|m: IMap<Node, real>| #![trigger ok(n, m)] #![trigger ok(d, m)] ok(n, m) ==> ok(d, m) && val(d, m) == der(n, v, m) }
pub open spec fn ders_ok(n: Node, vars: Seq<&Node>, r: Map<Node, Node>) -> bool {
    &&& forall|k: Node| #[trigger] r.contains_key(k) <==> in_vars(vars, k)
    &&& forall|k: Node| #[trigger] r.contains_key(k) ==> der_ok(n, k, r[k])
}
// invariant of the traversal: collected paths and queue together account for the derivative
pub open spec fn trav(n: Node, paths: Map<Node, Vec<Vec<Node>>>, wq: Seq<Vec<Node>>, extra: Seq<Node>, k: int) -> bool {
    forall|v: Node, m: IMap<Node, real>| #![trigger paths.contains_key(v), ok(n, m)] paths.contains_key(v) && ok(n, m) ==>
        fsum(paths[v]@, m, paths[v]@.len()) + wsum(wq, v, m) + (if k >= 0 { pprod(extra, m, extra.len()) * prest(extra[extra.len() - 1], v, m, k as nat) } else { 0real }) == der(n, v, m)
}
} // verus!
verus! {
/// paths2 is paths with the finished path p recorded under its last node
pub open spec fn coll(paths: Map<Node, Vec<Vec<Node>>>, paths2: Map<Node, Vec<Vec<Node>>>, p: Seq<Node>) -> bool {
    &&& paths2.dom() == paths.dom()
    &&& forall|v: Node| #[trigger] paths.contains_key(v) ==> coll1(paths[v]@, paths2[v]@, v, p)
}
pub open spec fn coll1(a: Seq<Vec<Node>>, b: Seq<Vec<Node>>, v: Node, p: Seq<Node>) -> bool {
    if is_var(v) && v == p[p.len() - 1] { b.len() == a.len() + 1 && b.drop_last() == a && b.last()@ == p } else { b == a }
}
pub open spec fn popped(w0: Seq<Vec<Node>>, w1: Seq<Vec<Node>>, p: Vec<Node>) -> bool { w0 == seq![p] + w1 || w0 == w1.push(p) }
pub proof fn lem_trav_collect(n: Node, paths: Map<Node, Vec<Vec<Node>>>, paths2: Map<Node, Vec<Vec<Node>>>, w0: Seq<Vec<Node>>, w1: Seq<Vec<Node>>, p: Vec<Node>)
    requires trav(n, paths, w0, seq![], -1), popped(w0, w1, p), path_from(n, p@), coll(paths, paths2, p@), forall|v: Node| #[trigger] paths.contains_key(v) ==> is_var(v),
    ensures trav(n, paths2, w1, p@, 0),
{
    lem_wq_add(w1, p, w0);
    let last = p@[p@.len() - 1];
    assert forall|v: Node, m: IMap<Node, real>| #![trigger paths2.contains_key(v), ok(n, m)] paths2.contains_key(v) && ok(n, m) implies
        fsum(paths2[v]@, m, paths2[v]@.len()) + wsum(w1, v, m) + pprod(p@, m, p@.len()) * prest(last, v, m, 0) == der(n, v, m) by {
        assert(paths.contains_key(v)); assert(coll1(paths[v]@, paths2[v]@, v, p@));
        lem_ok_path(p@, m, (p@.len() - 1) as nat);
        let pp = pprod(p@, m, p@.len());
        assert(fsum(paths[v]@, m, paths[v]@.len()) + wsum(w0, v, m) == der(n, v, m));
        assert(wsum(w0, v, m) == wsum(w1, v, m) + witem(p@, v, m));
        if is_var(last) {
            assert(prest(last, v, m, 0) == 0real);
            lem_mulfacts(pp, 0real); lem_mulfacts(pp, 1real);
            if v == last {
                assert(paths2[v]@ =~= paths[v]@.push(paths2[v]@.last()));
                lem_fsum_push(paths[v]@, paths2[v]@.last(), m);
            }
        } else { lem_witem_split(p@, v, m); }
    }
}
pub proof fn lem_trav_arg(n: Node, paths: Map<Node, Vec<Vec<Node>>>, w1: Seq<Vec<Node>>, w2: Seq<Vec<Node>>, p: Seq<Node>, k: nat, x: Vec<Node>)
    requires p.len() >= 1, k < args(p[p.len() - 1]).len(), trav(n, paths, w1, p, k as int), popped(w2, w1, x), x@ == p.push(args(p[p.len() - 1])[k as int]),
    ensures trav(n, paths, w2, p, k as int + 1), wtsz(w2) == wtsz(w1) + tsz(args(p[p.len() - 1])[k as int]),
{
    lem_wq_add(w1, x, w2);
    let last = p[p.len() - 1]; let a = args(last)[k as int];
    assert forall|v: Node, m: IMap<Node, real>| #![trigger paths.contains_key(v), ok(n, m)] paths.contains_key(v) && ok(n, m) implies
        fsum(paths[v]@, m, paths[v]@.len()) + wsum(w2, v, m) + pprod(p, m, p.len()) * prest(last, v, m, k + 1) == der(n, v, m) by {
        let pp = pprod(p, m, p.len());
        lem_witem_step(p, a, v, m);
        let t = pv(last, a, m) * der(a, v, m);
        assert(prest(last, v, m, k) == prest(last, v, m, k + 1) + t);
        lem_distr(prest(last, v, m, k + 1), t, pp); lem_comm(prest(last, v, m, k + 1) + t, pp); lem_comm(prest(last, v, m, k + 1), pp); lem_comm(t, pp);
        assert(wsum(w2, v, m) == wsum(w1, v, m) + pp * t);
    }
}
pub proof fn lem_trav_end(n: Node, paths: Map<Node, Vec<Vec<Node>>>, w: Seq<Vec<Node>>, p: Seq<Node>)
    requires p.len() >= 1, trav(n, paths, w, p, args(p[p.len() - 1]).len() as int),
    ensures trav(n, paths, w, seq![], -1),
{
    assert forall|v: Node, m: IMap<Node, real>| #![trigger paths.contains_key(v), ok(n, m)] paths.contains_key(v) && ok(n, m) implies
        fsum(paths[v]@, m, paths[v]@.len()) + wsum(w, v, m) == der(n, v, m) by { lem_mulfacts(pprod(p, m, p.len()), 0real); }
}
pub proof fn lem_trav_start(n: Node, paths: Map<Node, Vec<Vec<Node>>>, w: Seq<Vec<Node>>, p: Vec<Node>)
    requires p@ == seq![n], w == seq![p], forall|v: Node| #[trigger] paths.contains_key(v) ==> paths[v]@.len() == 0,
    ensures trav(n, paths, w, seq![], -1), wtsz(w) == tsz(n),
{
    assert(w =~= seq![p] + seq![]);
    lem_wq_add(seq![], p, w);
    assert forall|v: Node, m: IMap<Node, real>| #![trigger paths.contains_key(v), ok(n, m)] paths.contains_key(v) && ok(n, m) implies
        fsum(paths[v]@, m, paths[v]@.len()) + wsum(w, v, m) == der(n, v, m) by { assert(wsum(seq![], v, m) == 0real); lem_mulfacts(1real, der(n, v, m)); }
}
pub proof fn lem_all_paths_add(s: Seq<Vec<Node>>, t: Seq<Vec<Node>>, x: Vec<Node>, n: Node)
    requires popped(t, s, x), 
    ensures all_paths(t, n) == (all_paths(s, n) && path_from(n, x@)),
{
    if t == seq![x] + s { if all_paths(t, n) { assert(t[0] == x); assert forall|i: int| 0 <= i < s.len() implies path_from(n, (#[trigger] s[i])@) by { assert(t[i + 1] == s[i]); } } }
    else { if all_paths(t, n) { assert(t[s.len() as int] == x); assert forall|i: int| 0 <= i < s.len() implies path_from(n, (#[trigger] s[i])@) by { assert(t[i] == s[i]); } } }
}
pub proof fn lem_path_push(p: Seq<Node>, a: Node)
    requires is_path(p), args(p[p.len() - 1]).contains(a),
    ensures is_path(p.push(a)), p.push(a)[0] == p[0],
{
    let q = p.push(a);
    assert forall|i: int| 0 <= i < q.len() - 1 implies args(#[trigger] q[i]).contains(q[i + 1]) by { if i < p.len() - 1 { assert(args(p[i]).contains(p[i + 1])); } }
}
} // verus!
verus! {
pub proof fn lem_coll_to(n: Node, a: Map<Node, Vec<Vec<Node>>>, b: Map<Node, Vec<Vec<Node>>>, p: Seq<Node>)
    requires coll(a, b, p), path_from(n, p), forall|k: Node| #[trigger] a.contains_key(k) ==> all_paths_to(a[k]@, n, k),
    ensures forall|k: Node| #[trigger] b.contains_key(k) ==> all_paths_to(b[k]@, n, k),
{
    assert forall|k: Node| #[trigger] b.contains_key(k) implies all_paths_to(b[k]@, n, k) by {
        assert(a.contains_key(k)); assert(coll1(a[k]@, b[k]@, k, p)); assert(all_paths_to(a[k]@, n, k));
        assert forall|i: int| 0 <= i < b[k]@.len() implies path_to(n, k, (#[trigger] b[k]@[i])@) by {
            if is_var(k) && k == p[p.len() - 1] { if i < a[k]@.len() { assert(b[k]@.drop_last()[i] == b[k]@[i]); } else { assert(b[k]@[i] == b[k]@.last()); } }
        }
    }
}
} // verus!
verus! {
/// the ways a quotient is built
pub proof fn lem_div_built(a: Node, b: Node, r: Node)
    requires (cval(b) == FV::R(1real) && is_const(b) && r == a) || (zconst(a) && zconst(r)) || (is_const(a) && is_const(b) && is_const(r) && cval(r) == fv_div(cval(a), cval(b)))
        || (r is FunctionDiv && args(r)[0] == a && args(r)[1] == b),
    ensures div_nn(a, b, r),
{
    assert forall|m: IMap<Node, real>| ok(a, m) && ok(b, m) && val(b, m) != 0real implies ok(r, m) && val(r, m) == val(a, m) / val(b, m) by {
        lem_divfacts(val(a, m), val(b, m)); lem_unf(r, m);
    }
}
} // verus!
verus! {
pub open spec fn part1(a: Node, r: Node, m: IMap<Node, real>, t: real) -> bool { ok(a, m) ==> ok(r, m) && val(r, m) == t }
pub open spec fn part_built(n: Node, arg: Node, r: Node) -> bool {
    match n {
        Node::ConstantScalar(c) => is_const(r) && cval(r) == FV::R(0real),
        Node::VariableScalar(x) => is_const(r) && cval(r) == FV::R(if n == arg { 1real } else { 0real }),
        Node::FunctionAdd(x) => is_const(r) && cval(r) == FV::R(if x.args@.contains(arg) { 1real } else { 0real }),
        Node::FunctionCos(x) => forall|m: IMap<Node, real>| ok(x.arg, m) ==> #[trigger] ok(r, m) && val(r, m) == (if x.arg == arg { -rsin(val(x.arg, m)) } else { 0real }),
        Node::FunctionDiv(x) => forall|m: IMap<Node, real>| ok(x.args.0, m) && ok(x.args.1, m) && val(x.args.1, m) != 0real ==> #[trigger] ok(r, m) && val(r, m) == pv_div(x.args.0, x.args.1, arg, m),
        Node::FunctionMul(x) => forall|m: IMap<Node, real>| ok(x.args.0, m) && ok(x.args.1, m) ==> #[trigger] ok(r, m) && val(r, m) == pv_mul(x.args.0, x.args.1, arg, m),
        Node::FunctionSin(x) => forall|m: IMap<Node, real>| ok(x.arg, m) ==> #[trigger] ok(r, m) && val(r, m) == (if x.arg == arg { rcos(val(x.arg, m)) } else { 0real }),
    }
}
pub proof fn lem_part(n: Node, arg: Node, r: Node)
    requires part_built(n, arg, r),
    ensures part_r(n, arg, r),
{
    assert forall|m: IMap<Node, real>| ok(n, m) implies ok(r, m) && val(r, m) == pv(n, arg, m) by {
        match n {
            Node::FunctionCos(x) => { assert(ok(r, m)); }
            Node::FunctionSin(x) => { assert(ok(r, m)); }
            Node::FunctionDiv(x) => { assert(ok(r, m)); }
            Node::FunctionMul(x) => { assert(ok(r, m)); }
            _ => {}
        }
    }
}
} // verus!
verus! {
// ---------------------------------------------------------------- affine forms
/// sum of f over a finite set
pub open spec fn tot(s: Set<Node>, f: spec_fn(Node) -> real) -> real decreases s.len() {
    if s.len() == 0 { 0real } else { let k = s.choose(); tot(s.remove(k), f) + f(k) }
}
pub proof fn lem_tot_remove(s: Set<Node>, f: spec_fn(Node) -> real, x: Node)
    requires s.contains(x),
    ensures tot(s, f) == tot(s.remove(x), f) + f(x),
    decreases s.len(),
{
    broadcast use vstd::set::group_set_lemmas;
    assert(s.len() != 0) by { if s.len() == 0 { assert(s =~= Set::empty()); } }
    let k = s.choose();
    assert(s.contains(k));
    if k != x {
        lem_tot_remove(s.remove(k), f, x);
        lem_tot_remove(s.remove(x), f, k);
        assert(s.remove(k).remove(x) =~= s.remove(x).remove(k));
    }
}
pub proof fn lem_tot_insert(s: Set<Node>, f: spec_fn(Node) -> real, x: Node)
    requires !s.contains(x),
    ensures tot(s.insert(x), f) == tot(s, f) + f(x),
{
    broadcast use vstd::set::group_set_lemmas;
    lem_tot_remove(s.insert(x), f, x); assert(s.insert(x).remove(x) =~= s);
}
pub proof fn lem_tot_ext(s: Set<Node>, f: spec_fn(Node) -> real, g: spec_fn(Node) -> real)
    requires forall|k: Node| s.contains(k) ==> f(k) == #[trigger] g(k),
    ensures tot(s, f) == tot(s, g),
    decreases s.len(),
{
    broadcast use vstd::set::group_set_lemmas;
    if s.len() != 0 { let k = s.choose(); assert(s.contains(k)) by { if !exists|x: Node| s.contains(x) { assert(s =~= Set::empty()); } }
        assert(f(k) == g(k)); lem_tot_ext(s.remove(k), f, g); }
}
pub open spec fn term(a: Map<Node, F64>, m: IMap<Node, real>, k: Node) -> real { rv(a[k]) * m[k] }
/// a*x at the point m
pub open spec fn lin(a: Map<Node, F64>, m: IMap<Node, real>) -> real { tot(a.dom(), |k: Node| term(a, m, k)) }
pub open spec fn all_r(a: Map<Node, F64>) -> bool { forall|k: Node| #[trigger] a.contains_key(k) ==> is_r(a[k]) }
pub proof fn lem_lin_put(a: Map<Node, F64>, b: Map<Node, F64>, m: IMap<Node, real>, k: Node)
    requires b.dom() =~= a.dom().insert(k), forall|j: Node| j != k && a.contains_key(j) ==> #[trigger] b[j] == a[j],
    ensures lin(b, m) == lin(a, m) - (if a.contains_key(k) { term(a, m, k) } else { 0real }) + term(b, m, k),
{
    broadcast use vstd::set::group_set_lemmas;
    let f = |j: Node| term(a, m, j); let g = |j: Node| term(b, m, j);
    let s = a.dom().remove(k);
    assert(b.dom().remove(k) =~= s);
    lem_tot_remove(b.dom(), g, k);
    assert forall|j: Node| s.contains(j) implies f(j) == #[trigger] g(j) by { assert(b[j] == a[j]); }
    lem_tot_ext(s, f, g);
    if a.contains_key(k) { lem_tot_remove(a.dom(), f, k); } else { assert(s =~= a.dom()); }
}
// sum over the first j entries of an iteration
pub open spec fn linseq(s: Seq<(&Node, &F64)>, m: IMap<Node, real>, j: nat) -> real decreases j {
    if j == 0 || j > s.len() { 0real } else { linseq(s, m, (j - 1) as nat) + rv(*s[j - 1].1) * m[*s[j - 1].0] }
}
pub open spec fn keys_to(s: Seq<(&Node, &F64)>, j: int) -> Set<Node> decreases j { if j <= 0 || j > s.len() { Set::empty() } else { keys_to(s, j - 1).insert(*s[j - 1].0) } }
pub proof fn lem_keys_to(s: Seq<(&Node, &F64)>, j: int)
    requires j <= s.len(),
    ensures forall|k: Node| #[trigger] keys_to(s, j).contains(k) <==> exists|i: int| 0 <= i < j && *(#[trigger] s[i]).0 == k,
    decreases j,
{
    broadcast use vstd::set::group_set_lemmas;
    if j > 0 { lem_keys_to(s, j - 1);
        assert forall|k: Node| #[trigger] keys_to(s, j).contains(k) <==> exists|i: int| 0 <= i < j && *(#[trigger] s[i]).0 == k by {
            if keys_to(s, j).contains(k) { if k == *s[j - 1].0 {} else { assert(keys_to(s, j - 1).contains(k)); } }
            if exists|i: int| 0 <= i < j && *(#[trigger] s[i]).0 == k { let i = choose|i: int| 0 <= i < j && *(#[trigger] s[i]).0 == k; if i < j - 1 { assert(keys_to(s, j - 1).contains(k)); } }
        } }
}
pub proof fn lem_linseq_tot(s: Seq<(&Node, &F64)>, a: Map<Node, F64>, m: IMap<Node, real>, j: nat)
    requires items_of(s, a), j <= s.len(),
    ensures linseq(s, m, j) == tot(keys_to(s, j as int), |k: Node| term(a, m, k)),
    decreases j,
{
    broadcast use vstd::set::group_set_lemmas;
    let g = |k: Node| term(a, m, k);
    if j > 0 {
        lem_linseq_tot(s, a, m, (j - 1) as nat);
        let x = *s[j - 1].0;
        lem_keys_to(s, j - 1);
        assert(!keys_to(s, j - 1).contains(x)) by { if keys_to(s, j - 1).contains(x) { let i = choose|i: int| 0 <= i < j - 1 && *(#[trigger] s[i]).0 == x; assert(*s[i].0 != *s[j - 1].0); } }
        lem_tot_insert(keys_to(s, j - 1), g, x);
        assert(a[*s[j - 1].0] == *s[j - 1].1);
    } else { assert(keys_to(s, 0).len() == 0); }
}
pub proof fn lem_linseq(s: Seq<(&Node, &F64)>, a: Map<Node, F64>, m: IMap<Node, real>)
    requires items_of(s, a),
    ensures linseq(s, m, s.len()) == lin(a, m),
{
    broadcast use vstd::set::group_set_lemmas;
    lem_linseq_tot(s, a, m, s.len()); lem_keys_to(s, s.len() as int);
    assert(keys_to(s, s.len() as int) =~= a.dom());
}
/// lin of scaled coefficients
pub proof fn lem_lin_scale(a: Map<Node, F64>, b: Map<Node, F64>, m: IMap<Node, real>, c: real)
    requires b.dom() =~= a.dom(), forall|k: Node| #[trigger] a.contains_key(k) ==> rv(b[k]) == rv(a[k]) * c,
    ensures lin(b, m) == lin(a, m) * c,
{
    let f = |j: Node| term(a, m, j); let g = |j: Node| term(b, m, j);
    assert forall|k: Node| a.dom().contains(k) implies #[trigger] g(k) == f(k) * c by {
        assert(a.contains_key(k)); lem_assoc(rv(a[k]), c, m[k]); lem_comm(c, m[k]); lem_assoc(rv(a[k]), m[k], c);
    }
    lem_tot_scale(a.dom(), f, g, c);
    assert(b.dom() == a.dom());
}
pub proof fn lem_tot_scale(s: Set<Node>, f: spec_fn(Node) -> real, g: spec_fn(Node) -> real, c: real)
    requires forall|k: Node| s.contains(k) ==> #[trigger] g(k) == f(k) * c,
    ensures tot(s, g) == tot(s, f) * c,
    decreases s.len(),
{
    broadcast use vstd::set::group_set_lemmas;
    if s.len() != 0 { let k = s.choose(); assert(s.contains(k)) by { if !exists|x: Node| s.contains(x) { assert(s =~= Set::empty()); } }
        assert(g(k) == f(k) * c); lem_tot_scale(s.remove(k), f, g, c); lem_distr(tot(s.remove(k), f), f(k), c); }
    else { lem_mulfacts(0real, c); }
}
/// contract of std_properties
pub open spec fn cf(a: Map<Node, F64>, k: Node) -> real { if a.contains_key(k) { rv(a[k]) } else { 0real } }
pub open spec fn aff_at(n: Node, a: Map<Node, F64>, b: F64, m: IMap<Node, real>) -> bool {
    is_r(b) && all_r(a) && val(n, m) == lin(a, m) + rv(b) && forall|k: Node| #[trigger] der(n, k, m) == cf(a, k) }
pub open spec fn cfseq(s: Seq<(&Node, &F64)>, k: Node, j: nat) -> real decreases j {
    if j == 0 || j > s.len() { 0real } else { cfseq(s, k, (j - 1) as nat) + (if *s[j - 1].0 == k { rv(*s[j - 1].1) } else { 0real }) }
}
pub proof fn lem_cfseq_at(s: Seq<(&Node, &F64)>, k: Node, j: nat, i: int)
    requires j <= s.len(), 0 <= i < s.len(), *s[i].0 == k, forall|x: int, y: int| 0 <= x < y < s.len() ==> *(#[trigger] s[x]).0 != *(#[trigger] s[y]).0,
    ensures cfseq(s, k, j) == (if i < j { rv(*s[i].1) } else { 0real }),
    decreases j,
{ if j > 0 { lem_cfseq_at(s, k, (j - 1) as nat, i); if j - 1 != i { if j - 1 < i { assert(*s[j - 1].0 != *s[i].0); } else { assert(*s[i].0 != *s[j - 1].0); } } } }
pub proof fn lem_cfseq_none(s: Seq<(&Node, &F64)>, k: Node, j: nat)
    requires j <= s.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 != k,
    ensures cfseq(s, k, j) == 0real,
    decreases j,
{ if j > 0 { lem_cfseq_none(s, k, (j - 1) as nat); } }
pub proof fn lem_cfseq(s: Seq<(&Node, &F64)>, a: Map<Node, F64>, k: Node)
    requires items_of(s, a),
    ensures cfseq(s, k, s.len()) == cf(a, k),
{
    if a.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(a[*s[i].0] == *s[i].1); lem_cfseq_at(s, k, s.len(), i); }
    else { assert forall|i: int| 0 <= i < s.len() implies *(#[trigger] s[i]).0 != k by { assert(a.contains_key(*s[i].0)); } lem_cfseq_none(s, k, s.len()); }
}
pub open spec fn prop_ok(n: Node, affine: bool, a: Map<Node, F64>, b: F64) -> bool {
    &&& forall|k: Node| #[trigger] a.contains_key(k) <==> occ(n, k)
    &&& affine ==> forall|m: IMap<Node, real>| #[trigger] ok(n, m) ==> aff_at(n, a, b, m)
}
pub proof fn lem_unf_der(n: Node, v: Node, m: IMap<Node, real>)
    ensures
        n is ConstantScalar ==> der(n, v, m) == 0real,
        n is VariableScalar ==> der(n, v, m) == (if n == v { 1real } else { 0real }),
        n is FunctionAdd ==> der(n, v, m) == der_sum(args(n), v, m, args(n).len()),
        n is FunctionMul ==> der(n, v, m) == val(args(n)[0], m) * der(args(n)[1], v, m) + der(args(n)[0], v, m) * val(args(n)[1], m),
        n is FunctionDiv ==> der(n, v, m) == (der(args(n)[0], v, m) * val(args(n)[1], m) - val(args(n)[0], m) * der(args(n)[1], v, m)) / (val(args(n)[1], m) * val(args(n)[1], m)),
{ }
} // verus!
verus! {
/// the map with the first j entries of an iteration added
pub open spec fn dom_plus(a0: Map<Node, F64>, s: Seq<(&Node, &F64)>, a: Map<Node, F64>, j: int) -> bool {
    forall|k: Node| #[trigger] a.contains_key(k) <==> a0.contains_key(k) || exists|i: int| 0 <= i < j && *(#[trigger] s[i]).0 == k
}
pub open spec fn vals_plus(a0: Map<Node, F64>, s: Seq<(&Node, &F64)>, a: Map<Node, F64>, j: int) -> bool {
    &&& all_r(a)
    &&& forall|m: IMap<Node, real>| #[trigger] lin(a, m) == lin(a0, m) + linseq(s, m, j as nat)
    &&& forall|k: Node| #[trigger] cf(a, k) == cf(a0, k) + cfseq(s, k, j as nat)
}
pub proof fn lem_add_step(a0: Map<Node, F64>, s: Seq<(&Node, &F64)>, a: Map<Node, F64>, b: Map<Node, F64>, j: int, k: Node, v: F64)
    requires 0 <= j < s.len(), k == *s[j].0, v == *s[j].1, dom_plus(a0, s, a, j), vals_plus(a0, s, a, j), is_r(v), b.dom() =~= a.dom().insert(k),
        forall|i: Node| i != k && a.contains_key(i) ==> #[trigger] b[i] == a[i], b[k].v@ == (if a.contains_key(k) { fv_add(a[k].v@, v.v@) } else { v.v@ }),
    ensures vals_plus(a0, s, b, j + 1),
{
    assert(all_r(b)) by { assert forall|i: Node| #[trigger] b.contains_key(i) implies is_r(b[i]) by { if i != k { assert(a.contains_key(i)); assert(b[i] == a[i]); } else if a.contains_key(k) { assert(is_r(a[k])); } } }
    assert forall|m: IMap<Node, real>| #[trigger] lin(b, m) == lin(a0, m) + linseq(s, m, (j + 1) as nat) by {
        lem_lin_put(a, b, m, k);
        assert(lin(a, m) == lin(a0, m) + linseq(s, m, j as nat));
        if a.contains_key(k) { assert(is_r(a[k])); lem_distr(rv(a[k]), rv(v), m[k]); }
    }
    assert forall|i: Node| #[trigger] cf(b, i) == cf(a0, i) + cfseq(s, i, (j + 1) as nat) by { assert(cf(a, i) == cf(a0, i) + cfseq(s, i, j as nat));
        if i != k { assert(a.contains_key(i) == b.contains_key(i)); } else if a.contains_key(k) { assert(is_r(a[k])); } }
}
pub proof fn lem_lin_empty(a: Map<Node, F64>, m: IMap<Node, real>) requires forall|k: Node| !#[trigger] a.contains_key(k), ensures lin(a, m) == 0real {
    broadcast use vstd::set::group_set_lemmas; assert(a.dom() =~= Set::empty()); }
/// affine form of a sum, so far
pub open spec fn aff_sum(args: Seq<Node>, k: nat, a: Map<Node, F64>, b: F64) -> bool {
    forall|m: IMap<Node, real>| #[trigger] ok_all(args, m, args.len()) ==> aff_sum_at(args, k, a, b, m)
}
pub open spec fn aff_sum_at(args: Seq<Node>, k: nat, a: Map<Node, F64>, b: F64, m: IMap<Node, real>) -> bool {
    is_r(b) && all_r(a) && val_sum(args, m, k) == lin(a, m) + rv(b) && forall|v: Node| #[trigger] der_sum(args, v, m, k) == cf(a, v) }
pub proof fn lem_aff_sum_step(args: Seq<Node>, k: nat, a: Map<Node, F64>, b: F64, p: Map<Node, F64>, pb: F64, s: Seq<(&Node, &F64)>, a2: Map<Node, F64>, b2: F64)
    requires k < args.len(), aff_sum(args, k, a, b), prop_ok(args[k as int], true, p, pb), items_of(s, p), all_r(a) && all_r(p) ==> vals_plus(a, s, a2, s.len() as int), b2.v@ == fv_add(b.v@, pb.v@),
    ensures aff_sum(args, k + 1, a2, b2),
{
    assert forall|m: IMap<Node, real>| #[trigger] ok_all(args, m, args.len()) implies aff_sum_at(args, k + 1, a2, b2, m) by {
        lem_ok_all(args, m, args.len()); assert(ok(args[k as int], m)); assert(aff_at(args[k as int], p, pb, m)); lem_linseq(s, p, m);
        assert(aff_sum_at(args, k, a, b, m));
        assert forall|v: Node| #[trigger] der_sum(args, v, m, k + 1) == cf(a2, v) by { lem_cfseq(s, p, v); assert(cf(a2, v) == cf(a, v) + cfseq(s, v, s.len())); assert(der_sum(args, v, m, k) == cf(a, v)); assert(der(args[k as int], v, m) == cf(p, v)); }
    }
}
/// product and quotient
pub open spec fn aff_fin_at(n0: Node, n1: Node, prod: bool, a: Map<Node, F64>, b: F64, m: IMap<Node, real>) -> bool {
    is_r(b) && all_r(a) && (if prod { val(n0, m) * val(n1, m) } else { val(n0, m) / val(n1, m) }) == lin(a, m) + rv(b)
    && forall|k: Node| #![trigger cf(a, k)] #![trigger der(n0, k, m)] (if prod { val(n0, m) * der(n1, k, m) + der(n0, k, m) * val(n1, m) } else { (der(n0, k, m) * val(n1, m) - val(n0, m) * der(n1, k, m)) / (val(n1, m) * val(n1, m)) }) == cf(a, k)
}
pub open spec fn aff_fin(n0: Node, n1: Node, prod: bool, a: Map<Node, F64>, b: F64) -> bool {
    forall|m: IMap<Node, real>| #![trigger ok(n0, m), ok(n1, m)] ok(n0, m) && ok(n1, m) && (prod || val(n1, m) != 0real) ==> aff_fin_at(n0, n1, prod, a, b, m)
}
pub open spec fn ment(a: Map<Node, F64>, p: Map<Node, F64>, c: FV, prod: bool) -> bool { forall|k: Node| #[trigger] p.contains_key(k) ==> a[k].v@ == (if prod { fv_mul(p[k].v@, c) } else { fv_div(p[k].v@, c) }) }
pub proof fn lem_cf_scale(a: Map<Node, F64>, p: Map<Node, F64>, c: real, k: Node)
    requires a.dom() =~= p.dom(), forall|k: Node| #[trigger] p.contains_key(k) ==> rv(a[k]) == rv(p[k]) * c,
    ensures cf(a, k) == cf(p, k) * c,
{ assert(a.contains_key(k) == a.dom().contains(k)); assert(p.contains_key(k) == p.dom().contains(k)); if !p.contains_key(k) { lem_mulfacts(0real, c); } }
pub proof fn lem_aff_mul(n0: Node, n1: Node, p0: Map<Node, F64>, b0: F64, p1: Map<Node, F64>, b1: F64, a: Map<Node, F64>, b: F64)
    requires prop_ok(n0, true, p0, b0), prop_ok(n1, true, p1, b1), b.v@ == fv_mul(b0.v@, b1.v@), a.dom() =~= p0.dom().union(p1.dom()),
        p1.len() == 0 && ment(a, p0, b1.v@, true) || p0.len() == 0 && ment(a, p1, b0.v@, true),
    ensures aff_fin(n0, n1, true, a, b),
{
    broadcast use vstd::set::group_set_lemmas, vstd::map::group_map_lemmas;
    assert forall|m: IMap<Node, real>| #![trigger ok(n0, m), ok(n1, m)] ok(n0, m) && ok(n1, m) implies aff_fin_at(n0, n1, true, a, b, m) by {
        assert(aff_at(n0, p0, b0, m) && aff_at(n1, p1, b1, m));
        let (x0, x1) = (val(n0, m), val(n1, m));
        if p1.len() == 0 && ment(a, p0, b1.v@, true) {
            assert(p1.dom() =~= Set::empty()); lem_lin_empty(p1, m); assert(a.dom() =~= p0.dom());
            assert forall|k: Node| #[trigger] a.contains_key(k) implies is_r(a[k]) by { assert(p0.contains_key(k)); }
            assert forall|k: Node| #[trigger] p0.contains_key(k) implies rv(a[k]) == rv(p0[k]) * rv(b1) by { }
            lem_lin_scale(p0, a, m, rv(b1)); lem_distr(lin(p0, m), rv(b0), rv(b1));
            assert forall|k: Node| #![trigger cf(a, k)] #![trigger der(n0, k, m)] x0 * der(n1, k, m) + der(n0, k, m) * x1 == cf(a, k) by {
                assert(der(n1, k, m) == cf(p1, k)); assert(!p1.contains_key(k)); assert(der(n0, k, m) == cf(p0, k)); lem_mulfacts(x0, 0real); lem_cf_scale(a, p0, rv(b1), k); }
        } else {
            assert(p0.dom() =~= Set::empty()); lem_lin_empty(p0, m); assert(a.dom() =~= p1.dom());
            assert forall|k: Node| #[trigger] a.contains_key(k) implies is_r(a[k]) by { assert(p1.contains_key(k)); }
            assert forall|k: Node| #[trigger] p1.contains_key(k) implies rv(a[k]) == rv(p1[k]) * rv(b0) by { }
            lem_lin_scale(p1, a, m, rv(b0)); lem_distr(lin(p1, m), rv(b1), rv(b0)); lem_comm(rv(b0), lin(p1, m) + rv(b1)); lem_comm(rv(b0), rv(b1));
            assert forall|k: Node| #![trigger cf(a, k)] #![trigger der(n0, k, m)] x0 * der(n1, k, m) + der(n0, k, m) * x1 == cf(a, k) by {
                assert(der(n0, k, m) == cf(p0, k)); assert(!p0.contains_key(k)); assert(der(n1, k, m) == cf(p1, k)); lem_mulfacts(0real, x1); lem_cf_scale(a, p1, rv(b0), k); lem_comm(rv(b0), cf(p1, k)); }
        }
    }
}
pub proof fn lem_recip(x: real, y: real) requires y != 0real, ensures x / y == x * (1real / y) {
    lem_quot(x, y); lem_quot(1real, y); lem_assoc(x, 1real / y, y); lem_mulfacts(x, 1real); lem_cancel(x / y, x * (1real / y), y);
}
pub proof fn lem_quot2(d: real, y: real) requires y != 0real, ensures y * y != 0real, (d * y) / (y * y) == d * (1real / y) {
    lem_nz2(y); lem_quot(d * y, y * y); lem_quot(1real, y);
    // (d/y) (y y) == d (1/y y) y == d y
    lem_assoc(d * (1real / y), y, y); lem_assoc(d, 1real / y, y); lem_mulfacts(d, 1real);
    lem_cancel((d * y) / (y * y), d * (1real / y), y * y);
}
pub proof fn lem_aff_div(n0: Node, n1: Node, p0: Map<Node, F64>, b0: F64, p1: Map<Node, F64>, b1: F64, a: Map<Node, F64>, b: F64)
    requires prop_ok(n0, true, p0, b0), prop_ok(n1, true, p1, b1), b.v@ == fv_div(b0.v@, b1.v@), a.dom() =~= p0.dom().union(p1.dom()), p1.len() == 0, ment(a, p0, b1.v@, false),
    ensures aff_fin(n0, n1, false, a, b),
{
    broadcast use vstd::set::group_set_lemmas, vstd::map::group_map_lemmas;
    assert forall|m: IMap<Node, real>| #![trigger ok(n0, m), ok(n1, m)] ok(n0, m) && ok(n1, m) && val(n1, m) != 0real implies aff_fin_at(n0, n1, false, a, b, m) by {
        assert(aff_at(n0, p0, b0, m) && aff_at(n1, p1, b1, m));
        assert(p1.dom() =~= Set::empty()); lem_lin_empty(p1, m); assert(a.dom() =~= p0.dom());
        let y = rv(b1); let c = 1real / y; let x0 = val(n0, m);
        assert(val(n1, m) == y);
        assert forall|k: Node| #[trigger] a.contains_key(k) implies is_r(a[k]) by { assert(p0.contains_key(k)); }
        assert forall|k: Node| #[trigger] p0.contains_key(k) implies rv(a[k]) == rv(p0[k]) * c by { assert(a.contains_key(k)); lem_recip(rv(p0[k]), y); }
        lem_lin_scale(p0, a, m, c); lem_distr(lin(p0, m), rv(b0), c); lem_recip(x0, y); lem_recip(rv(b0), y);
        assert forall|k: Node| #![trigger cf(a, k)] #![trigger der(n0, k, m)] (der(n0, k, m) * y - x0 * der(n1, k, m)) / (y * y) == cf(a, k) by {
            assert(der(n1, k, m) == cf(p1, k)); assert(!p1.contains_key(k)); assert(der(n0, k, m) == cf(p0, k)); lem_mulfacts(x0, 0real); lem_cf_scale(a, p0, c, k); lem_quot2(cf(p0, k), y); }
    }
}
/// a holds the first j entries of an iteration over p, scaled
pub open spec fn scal(s: Seq<(&Node, &F64)>, a: Map<Node, F64>, j: int, c: FV, prod: bool) -> bool {
    forall|i: int| 0 <= i < j ==> a[*(#[trigger] s[i]).0].v@ == (if prod { fv_mul((*s[i].1).v@, c) } else { fv_div((*s[i].1).v@, c) })
}
pub proof fn lem_scal(s: Seq<(&Node, &F64)>, p: Map<Node, F64>, a: Map<Node, F64>, c: FV, prod: bool)
    requires items_of(s, p), scal(s, a, s.len() as int, c, prod),
    ensures ment(a, p, c, prod),
{
    assert forall|k: Node| #[trigger] p.contains_key(k) implies a[k].v@ == (if prod { fv_mul(p[k].v@, c) } else { fv_div(p[k].v@, c) }) by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(p[*s[i].0] == *s[i].1); }
}
pub proof fn lem_dom_plus(a0: Map<Node, F64>, s: Seq<(&Node, &F64)>, p: Map<Node, F64>, a: Map<Node, F64>)
    requires items_of(s, p), dom_plus(a0, s, a, s.len() as int),
    ensures forall|k: Node| #[trigger] a.contains_key(k) <==> a0.contains_key(k) || p.contains_key(k),
{
    assert forall|k: Node| #[trigger] a.contains_key(k) <==> a0.contains_key(k) || p.contains_key(k) by {
        if a.contains_key(k) && !a0.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(p.contains_key(*s[i].0)); }
    }
}
} // verus!
verus! {
pub proof fn lem_no_items<K, V>(s: Seq<(&K, &V)>, p: Map<K, V>)
    requires items_of(s, p), p.len() == 0,
    ensures s.len() == 0,
{
    broadcast use vstd::set::group_set_lemmas, vstd::map::group_map_lemmas;
    if s.len() > 0 { assert(p.contains_key(*s[0].0)); assert(p.dom().len() == 0); assert(p.dom() =~= Set::empty()); }
}
} // verus!
verus! {
// ---------------------------------------------------------------- standard components
pub proof fn lem_occ_var(n: Node, v: Node)
    requires occ(n, v),
    ensures is_var(v),
    decreases n, 1nat, 0nat,
{ match n { Node::FunctionAdd(x) => { lem_occ_any_var(n, args(n), v, args(n).len()); } Node::FunctionCos(x) => lem_occ_var(args(n)[0], v), Node::FunctionSin(x) => lem_occ_var(args(n)[0], v),
    Node::FunctionMul(x) => { if occ(args(n)[0], v) { lem_occ_var(args(n)[0], v); } else { lem_occ_var(args(n)[1], v); } }
    Node::FunctionDiv(x) => { if occ(args(n)[0], v) { lem_occ_var(args(n)[0], v); } else { lem_occ_var(args(n)[1], v); } }
    _ => {} } }
pub proof fn lem_occ_any_var(n: Node, s: Seq<Node>, v: Node, k: nat)
    requires n is FunctionAdd, s == n->FunctionAdd_0.args@, occ_any(s, v, k), k <= s.len(),
    ensures is_var(v),
    decreases n, 0nat, k,
{ if k > 0 { if occ(s[k - 1], v) { lem_occ_var(s[k - 1], v); } else { lem_occ_any_var(n, s, v, (k - 1) as nat); } } }
/// one gradient entry per variable, with the derivative
pub open spec fn grad_ok(n: Node, g: Seq<(Node, Node)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).0 != (#[trigger] g[j]).0
    &&& forall|v: Node| #[trigger] occ(n, v) ==> exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == v
    &&& forall|i: int| 0 <= i < g.len() ==> occ(n, (#[trigger] g[i]).0) && der_ok(n, g[i].0, g[i].1)
}
/// an affine expression: constant gradient entries, equal to the coefficients
pub open spec fn grad_const(g: Seq<(Node, Node)>, a: Map<Node, F64>) -> bool {
    forall|i: int| 0 <= i < g.len() ==> a.contains_key((#[trigger] g[i]).0) && is_const(g[i].1) && cval(g[i].1) == a[g[i].0].v@
}
pub open spec fn hpair(e: (Node, Node, Node), v: Node, w: Node) -> bool { (e.0 == v && e.1 == w) || (e.0 == w && e.1 == v) }
pub open spec fn hentry(g: Seq<(Node, Node)>, e: (Node, Node, Node)) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == e.0 && der_ok(g[i].1, e.1, e.2) }
pub open spec fn hzero(n: Node, g: Seq<(Node, Node)>, i: int, j: int) -> bool {
    forall|m: IMap<Node, real>| #[trigger] ok(n, m) ==> der(g[i].1, g[j].0, m) == 0real || der(g[j].1, g[i].0, m) == 0real }
/// each unordered pair at most once, equal to the second derivative; a pair left out has a
/// second derivative that is zero everywhere
pub open spec fn hess_ok(n: Node, g: Seq<(Node, Node)>, h: Seq<(Node, Node, Node)>) -> bool {
    &&& forall|x: int| 0 <= x < h.len() ==> hentry(g, #[trigger] h[x]) && occ(n, h[x].1)
    &&& forall|x: int, y: int| 0 <= x < y < h.len() ==> !hpair(#[trigger] h[x], (#[trigger] h[y]).0, h[y].1)
    &&& forall|i: int, j: int| 0 <= i <= j < g.len() ==> (exists|x: int| 0 <= x < h.len() && hpair(#[trigger] h[x], g[i].0, g[j].0)) || #[trigger] hzero(n, g, i, j)
}
pub open spec fn comp_ok(n: Node, r: NodeStdComp) -> bool {
    &&& r.phi == n
    &&& prop_ok(n, r.prop.affine, r.prop.a@, r.prop.b)
    &&& grad_ok(n, r.gphi@)
    &&& hess_ok(n, r.gphi@, r.hphi@)
    &&& r.prop.affine ==> r.hphi@.len() == 0 && grad_const(r.gphi@, r.prop.a@)
}
// how far the non-affine loops have come: g has the first gl variables, h the pairs before (i, i + k)
pub open spec fn hbefore(p: (int, int), i: int, k: int) -> bool { p.0 < i || (p.0 == i && p.1 < i + k) }
pub open spec fn hpart(n: Node, vars: Seq<&Node>, g: Seq<(Node, Node)>, h: Seq<(Node, Node, Node)>, gi: Seq<(int, int)>, i: int, k: int) -> bool {
    &&& gi.len() == h.len()
    &&& forall|x: int| 0 <= x < gi.len() ==> 0 <= (#[trigger] gi[x]).0 <= gi[x].1 < vars.len() && gi[x].0 < g.len() && hbefore(gi[x], i, k)
            && h[x].0 == *vars[gi[x].0] && h[x].1 == *vars[gi[x].1] && der_ok(g[gi[x].0].1, h[x].1, h[x].2)
    &&& forall|x: int, y: int| 0 <= x < y < gi.len() ==> #[trigger] gi[x] != #[trigger] gi[y]
    &&& forall|a: int, b: int| #![trigger hbefore((a, b), i, k)] 0 <= a <= b < vars.len() && a < g.len() && hbefore((a, b), i, k) ==> gi.contains((a, b)) || hz(n, vars, g, a, b)
}
pub open spec fn hz(n: Node, vars: Seq<&Node>, g: Seq<(Node, Node)>, a: int, b: int) -> bool { forall|m: IMap<Node, real>| #[trigger] ok(n, m) ==> der(g[a].1, *vars[b], m) == 0real }
pub open spec fn gpart(n: Node, vars: Seq<&Node>, g: Seq<(Node, Node)>) -> bool { forall|x: int| 0 <= x < g.len() ==> (#[trigger] g[x]).0 == *vars[x] && der_ok(n, g[x].0, g[x].1) }
pub proof fn lem_hpart_grow(n: Node, vars: Seq<&Node>, g0: Seq<(Node, Node)>, g: Seq<(Node, Node)>, h: Seq<(Node, Node, Node)>, gi: Seq<(int, int)>, i: int)
    requires hpart(n, vars, g0, h, gi, i, 0), g.drop_last() == g0, g.len() == g0.len() + 1, g0.len() == i,
    ensures hpart(n, vars, g, h, gi, i, 0),
{
    assert forall|x: int| 0 <= x < g0.len() implies g[x] == g0[x] by { assert(g.drop_last()[x] == g[x]); }
    assert forall|x: int| 0 <= x < gi.len() implies der_ok(g[(#[trigger] gi[x]).0].1, h[x].1, h[x].2) && gi[x].0 < g.len() by {}
    assert forall|a: int, b: int| #![trigger hbefore((a, b), i, 0)] 0 <= a <= b < vars.len() && a < g.len() && hbefore((a, b), i, 0) implies gi.contains((a, b)) || hz(n, vars, g, a, b) by {
        assert(a < i); assert(gi.contains((a, b)) || hz(n, vars, g0, a, b)); if hz(n, vars, g0, a, b) { assert(g[a] == g0[a]); assert(hz(n, vars, g, a, b)); } }
}
/// the pair (i, i + k) has been dealt with
pub proof fn lem_hpart_step(n: Node, vars: Seq<&Node>, g: Seq<(Node, Node)>, h0: Seq<(Node, Node, Node)>, h: Seq<(Node, Node, Node)>, gi: Seq<(int, int)>, i: int, k: int, dd: Node)
    requires hpart(n, vars, g, h0, gi, i, k), 0 <= i, 0 <= k, i + k < vars.len(), g.len() == i + 1, gpart(n, vars, g), der_ok(g[i].1, *vars[i + k], dd),
        h == h0 && zconst(dd) || h.len() == h0.len() + 1 && h.drop_last() == h0 && h.last() == (*vars[i], *vars[i + k], dd),
    ensures hpart(n, vars, g, h, if h.len() == h0.len() { gi } else { gi.push((i, i + k)) }, i, k + 1),
{
    if h.len() == h0.len() {
        assert(hz(n, vars, g, i, i + k)) by { assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies der(g[i].1, *vars[i + k], m) == 0real by { assert(der_ok(n, g[i].0, g[i].1)); assert(ok(g[i].1, m)); } }
        assert forall|a: int, b: int| #![trigger hbefore((a, b), i, k + 1)] 0 <= a <= b < vars.len() && a < g.len() && hbefore((a, b), i, k + 1) implies gi.contains((a, b)) || hz(n, vars, g, a, b) by {
            if !(a == i && b == i + k) { assert(hbefore((a, b), i, k)); } }
        assert forall|x: int| 0 <= x < gi.len() implies hbefore(#[trigger] gi[x], i, k + 1) by { assert(hbefore(gi[x], i, k)); }
    } else {
        let gj = gi.push((i, i + k));
        assert forall|x: int| 0 <= x < h0.len() implies h[x] == h0[x] by { assert(h.drop_last()[x] == h[x]); }
        assert forall|x: int| 0 <= x < gj.len() implies 0 <= (#[trigger] gj[x]).0 <= gj[x].1 < vars.len() && gj[x].0 < g.len() && hbefore(gj[x], i, k + 1)
            && h[x].0 == *vars[gj[x].0] && h[x].1 == *vars[gj[x].1] && der_ok(g[gj[x].0].1, h[x].1, h[x].2) by { if x < gi.len() { assert(gj[x] == gi[x]); assert(hbefore(gi[x], i, k)); } else { assert(h[x] == h.last()); } }
        assert forall|x: int, y: int| 0 <= x < y < gj.len() implies #[trigger] gj[x] != #[trigger] gj[y] by { assert(gj[x] == gi[x]); assert(hbefore(gi[x], i, k)); if y < gi.len() { assert(gj[y] == gi[y]); assert(gi[x] != gi[y]); } }
        assert forall|a: int, b: int| #![trigger hbefore((a, b), i, k + 1)] 0 <= a <= b < vars.len() && a < g.len() && hbefore((a, b), i, k + 1) implies gj.contains((a, b)) || hz(n, vars, g, a, b) by {
            if a == i && b == i + k { assert(gj[gi.len() as int] == (a, b)); } else { assert(hbefore((a, b), i, k)); if gi.contains((a, b)) { let x = choose|x: int| 0 <= x < gi.len() && gi[x] == (a, b); assert(gj[x] == (a, b)); } } }
    }
}
pub proof fn lem_hpart_next(n: Node, vars: Seq<&Node>, g: Seq<(Node, Node)>, h: Seq<(Node, Node, Node)>, gi: Seq<(int, int)>, i: int, k: int)
    requires hpart(n, vars, g, h, gi, i, k), k == vars.len() - i, g.len() == i + 1,
    ensures hpart(n, vars, g, h, gi, i + 1, 0),
{
    assert forall|x: int| 0 <= x < gi.len() implies hbefore(#[trigger] gi[x], i + 1, 0) by { assert(hbefore(gi[x], i, k)); }
    assert forall|a: int, b: int| #![trigger hbefore((a, b), i + 1, 0)] 0 <= a <= b < vars.len() && a < g.len() && hbefore((a, b), i + 1, 0) implies gi.contains((a, b)) || hz(n, vars, g, a, b) by { assert(hbefore((a, b), i, k)); }
}
pub open spec fn vars_of(n: Node, vars: Seq<&Node>) -> bool {
    &&& forall|i: int| 0 <= i < vars.len() ==> occ(n, *(#[trigger] vars[i]))
    &&& forall|i: int, j: int| 0 <= i < j < vars.len() ==> *(#[trigger] vars[i]) != *(#[trigger] vars[j])
    &&& forall|v: Node| #[trigger] occ(n, v) ==> exists|i: int| 0 <= i < vars.len() && *(#[trigger] vars[i]) == v
}
pub proof fn lem_hess_fin(n: Node, vars: Seq<&Node>, g: Seq<(Node, Node)>, h: Seq<(Node, Node, Node)>, gi: Seq<(int, int)>)
    requires hpart(n, vars, g, h, gi, vars.len() as int, 0), gpart(n, vars, g), g.len() == vars.len(), vars_of(n, vars),
    ensures grad_ok(n, g), hess_ok(n, g, h),
{
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).0 != (#[trigger] g[j]).0 by { assert(*vars[i] != *vars[j]); }
    assert forall|v: Node| #[trigger] occ(n, v) implies exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == v by { let i = choose|i: int| 0 <= i < vars.len() && *(#[trigger] vars[i]) == v; assert(g[i].0 == v); }
    assert forall|i: int| 0 <= i < g.len() implies occ(n, (#[trigger] g[i]).0) by { assert(occ(n, *vars[i])); }
    assert forall|x: int| 0 <= x < h.len() implies hentry(g, #[trigger] h[x]) && occ(n, h[x].1) by { assert(gi[x].0 <= gi[x].1); assert(g[gi[x].0].0 == *vars[gi[x].0]); assert(occ(n, *vars[gi[x].1])); }
    assert forall|x: int, y: int| 0 <= x < y < h.len() implies !hpair(#[trigger] h[x], (#[trigger] h[y]).0, h[y].1) by {
        let (p, q) = (gi[x], gi[y]); assert(gi[x] != gi[y]);
        if hpair(h[x], h[y].0, h[y].1) { lem_vars_inj(n, vars, p.0, q.0); lem_vars_inj(n, vars, p.1, q.1); lem_vars_inj(n, vars, p.0, q.1); lem_vars_inj(n, vars, p.1, q.0); }
    }
    assert forall|i: int, j: int| 0 <= i <= j < g.len() implies (exists|x: int| 0 <= x < h.len() && hpair(#[trigger] h[x], g[i].0, g[j].0)) || #[trigger] hzero(n, g, i, j) by {
        assert(hbefore((i, j), vars.len() as int, 0)); assert(g[i].0 == *vars[i] && g[j].0 == *vars[j]);
        if gi.contains((i, j)) { let x = choose|x: int| 0 <= x < gi.len() && gi[x] == (i, j); assert(hpair(h[x], g[i].0, g[j].0)); } else { assert(hz(n, vars, g, i, j)); }
    }
}
pub proof fn lem_vars_inj(n: Node, vars: Seq<&Node>, i: int, j: int)
    requires vars_of(n, vars), 0 <= i < vars.len(), 0 <= j < vars.len(),
    ensures *vars[i] == *vars[j] ==> i == j,
{ if i < j { assert(*vars[i] != *vars[j]); } else if j < i { assert(*vars[j] != *vars[i]); } }
/// affine: constants
pub proof fn lem_grad_affine(n: Node, s: Seq<(&Node, &F64)>, a: Map<Node, F64>, b: F64, g: Seq<(Node, Node)>)
    requires prop_ok(n, true, a, b), items_of(s, a), g.len() == s.len(), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).0 == *s[i].0 && is_const(g[i].1) && cval(g[i].1) == (*s[i].1).v@,
    ensures grad_ok(n, g), grad_const(g, a), hess_ok(n, g, Seq::empty()),
{
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).0 != (#[trigger] g[j]).0 by { assert(*s[i].0 != *s[j].0); }
    assert forall|v: Node| #[trigger] occ(n, v) implies exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == v by { assert(a.contains_key(v)); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == v; assert(g[i].0 == v); }
    assert forall|i: int| 0 <= i < g.len() implies occ(n, (#[trigger] g[i]).0) && der_ok(n, g[i].0, g[i].1) by {
        assert(a.contains_key(*s[i].0)); assert(occ(n, g[i].0));
        assert forall|m: IMap<Node, real>| #![trigger ok(n, m)] #![trigger ok(g[i].1, m)] ok(n, m) implies ok(g[i].1, m) && val(g[i].1, m) == der(n, g[i].0, m) by {
            assert(aff_at(n, a, b, m)); assert(is_r(a[g[i].0])); assert(der(n, g[i].0, m) == cf(a, g[i].0)); lem_const_val(g[i].1, m); } }
    assert forall|i: int, j: int| 0 <= i <= j < g.len() implies #[trigger] hzero(n, g, i, j) by {
        assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies der(g[i].1, g[j].0, m) == 0real by { lem_unf_der(g[i].1, g[j].0, m); } }
}
pub proof fn lem_const_val(c: Node, m: IMap<Node, real>)
    requires is_const(c), cval(c) is R,
    ensures ok(c, m), val(c, m) == cval(c)->R_0,
{ }
pub proof fn lem_vars_of(n: Node, s: Seq<&Node>, a: Map<Node, F64>)
    requires elems_of(s, a.dom()), forall|k: Node| #[trigger] a.contains_key(k) <==> occ(n, k),
    ensures vars_of(n, s), forall|i: int| 0 <= i < s.len() ==> is_var(*(#[trigger] s[i])),
{
    assert forall|i: int| 0 <= i < s.len() implies occ(n, *(#[trigger] s[i])) && is_var(*s[i]) by { assert(a.contains_key(*s[i])); lem_occ_var(n, *s[i]); }
    assert forall|v: Node| #[trigger] occ(n, v) implies exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == v by { assert(a.contains_key(v)); assert(a.dom().contains(v)); }
}
} // verus!
