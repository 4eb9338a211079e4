verus! {
// ================================================================ constraints in standard form
pub open spec fn cdef(c: Constraint, m: IMap<Node, real>) -> bool { ok(c_lhs(c), m) && ok(c_rhs(c), m) }
pub open spec fn cdiff(c: Constraint, m: IMap<Node, real>) -> real { val(c_lhs(c), m) - val(c_rhs(c), m) }
/// e stands for lhs - rhs
pub open spec fn exp_of(e: Node, c: Constraint) -> bool { sub_nn(c_lhs(c), c_rhs(c), e) }
/// made by a call of VariableScalar::new, not taken from anywhere else
pub open spec fn fresh_var(s: Node) -> bool { s is VariableScalar && s->VariableScalar_0.kind == VariableKind::VarContinuous && fresh(s->VariableScalar_0.id@) }
/// the slack s is bounded by zero on the side the inequality says, and nothing else is bounded
pub open spec fn slack_ok(s: Node, c: Constraint, u: Seq<(Node, F64, Constraint)>, l: Seq<(Node, F64, Constraint)>) -> bool {
    match c_kind(c) {
        ConstraintKind::Equal => false,
        ConstraintKind::LessEqual => u.len() == 1 && l.len() == 0 && bnd_is(u[0], s, c),
        ConstraintKind::GreaterEqual => l.len() == 1 && u.len() == 0 && bnd_is(l[0], s, c),
    }
}
pub open spec fn bnd_is(b: (Node, F64, Constraint), s: Node, c: Constraint) -> bool { b.0 == s && b.1.v@ == FV::R(0real) && b.2 == c }
pub open spec fn rowsum(a: Seq<(usize, Node, F64)>, m: IMap<Node, real>, k: nat) -> real decreases k {
    if k == 0 || k > a.len() { 0real } else { rowsum(a, m, (k - 1) as nat) + rv(a[k - 1].2) * m[a[k - 1].1] } }
/// the row's entries are the map's entries
pub open spec fn row_ok(a: Seq<(usize, Node, F64)>, row: int, p: Map<Node, F64>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == row && p.contains_key(a[i].1) && p[a[i].1] == a[i].2
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).1 != (#[trigger] a[j]).1
    &&& forall|k: Node| #[trigger] p.contains_key(k) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1 == k
}
/// a variable bound
pub open spec fn std_bound(c: Constraint, b: (Node, F64, Constraint)) -> bool {
    b.2 == c && is_var(b.0) && forall|m: IMap<Node, real>| #[trigger] cdef(c, m) ==> is_r(b.1) && cdiff(c, m) == m[b.0] - rv(b.1)
}
pub open spec fn lin_at(c: Constraint, a: Seq<(usize, Node, F64)>, b: F64, s: Option<Node>, m: IMap<Node, real>) -> bool {
    is_r(b) && (forall|i: int| 0 <= i < a.len() ==> is_r((#[trigger] a[i]).2)) && rowsum(a, m, a.len()) - rv(b) == cdiff(c, m) - (match s { Some(x) => m[x], None => 0real })
}
/// a linear row: a[..] x = b, with the slack s
pub open spec fn std_lin(c: Constraint, e: Node, a: Seq<(usize, Node, F64)>, b: F64, row: int, s: Option<Node>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == row
    &&& forall|m: IMap<Node, real>| #[trigger] cdef(c, m) ==> lin_at(c, a, b, s, m)
    &&& match s { None => exists|p: Map<Node, F64>| #[trigger] row_ok(a, row, p) && forall|k: Node| #[trigger] p.contains_key(k) <==> occ(e, k),
        Some(x) => exists|i: int, p: Map<Node, F64>| 0 <= i < a.len() && #[trigger] row_ok(a.remove(i), row, p) && a[i].1 == x && a[i].2.v@ == FV::R(-1real) && forall|k: Node| #[trigger] p.contains_key(k) <==> occ(e, k) }
}
pub open spec fn jmap(j: Seq<(usize, Node, Node)>, row: int, g: Seq<(Node, Node)>) -> bool { j.len() == g.len() && forall|i: int| 0 <= i < j.len() ==> (#[trigger] j[i]).0 == row && j[i].1 == g[i].0 && j[i].2 == g[i].1 }
pub open spec fn std_jac(e: Node, j: Seq<(usize, Node, Node)>, h: Seq<(Node, Node, Node)>, row: int, g: Seq<(Node, Node)>) -> bool { jmap(j, row, g) && grad_ok(e, g) && hess_ok(e, g, h) }
pub open spec fn minus_one(e: Node) -> bool { is_const(e) && cval(e) == FV::R(-1real) }
/// a nonlinear row: f, its gradient entries and Hessian entries, with the slack s
pub open spec fn std_nl(c: Constraint, e: Node, f: Node, j: Seq<(usize, Node, Node)>, h: Seq<(Node, Node, Node)>, row: int, s: Option<Node>) -> bool {
    match s {
        None => sub_nn(c_lhs(c), c_rhs(c), f) && exists|g: Seq<(Node, Node)>| #[trigger] std_jac(e, j, h, row, g),
        Some(x) => sub_nn(e, x, f) && exists|i: int, g: Seq<(Node, Node)>| 0 <= i < j.len() && #[trigger] std_jac(e, j.remove(i), h, row, g) && j[i].0 == row && j[i].1 == x && minus_one(j[i].2),
    }
}
/// keys of the reported properties: the variables of the expression, and the slack
pub open spec fn prop_keys(e: Node, a: Map<Node, F64>, s: Option<Node>) -> bool { forall|k: Node| #[trigger] a.contains_key(k) <==> occ(e, k) || s == Some(k) }
pub open spec fn sl(s: Node, c: Constraint) -> Option<Node> { if c_kind(c) == ConstraintKind::Equal { None } else { Some(s) } }
pub open spec fn slacks(s: Node, c: Constraint, u: Seq<(Node, F64, Constraint)>, l: Seq<(Node, F64, Constraint)>) -> bool {
    if c_kind(c) == ConstraintKind::Equal { u.len() == 0 && l.len() == 0 } else { slack_ok(s, c, u, l) && fresh_var(s) } }
/// the slack variable: the one that is bounded
pub open spec fn bounded(u: Seq<(Node, F64, Constraint)>, l: Seq<(Node, F64, Constraint)>) -> Node { if u.len() > 0 { u[0].0 } else { l[0].0 } }
pub open spec fn is_bound_row(r: ConstraintStdComp) -> bool { r.ca@.len() == 0 && r.cj@.len() == 0 }
pub open spec fn is_lin_row(r: ConstraintStdComp) -> bool { r.ca@.len() > 0 }
pub open spec fn no_lin(r: ConstraintStdComp) -> bool { r.ca@.len() == 0 && r.a@.len() == 0 && r.b@.len() == 0 }
pub open spec fn no_nl(r: ConstraintStdComp) -> bool { r.cj@.len() == 0 && r.f@.len() == 0 && r.j@.len() == 0 && r.h@.len() == 0 }
pub open spec fn std_of(e: Node, c: Constraint, arow: int, jrow: int, arow2: int, jrow2: int, r: ConstraintStdComp) -> bool {
    let s = sl(bounded(r.u@, r.l@), c);
    &&& r.prop@.len() == 1
    &&& if is_bound_row(r) {
        &&& no_lin(r) && no_nl(r) && arow2 == arow && jrow2 == jrow && r.prop@[0].affine && prop_keys(e, r.prop@[0].a@, None)
        &&& match c_kind(c) { ConstraintKind::Equal => false, ConstraintKind::LessEqual => r.u@.len() == 1 && r.l@.len() == 0 && std_bound(c, r.u@[0]) && occ(e, r.u@[0].0), ConstraintKind::GreaterEqual => r.l@.len() == 1 && r.u@.len() == 0 && std_bound(c, r.l@[0]) && occ(e, r.l@[0].0) }
    } else if is_lin_row(r) {
        &&& no_nl(r) && r.ca@ == seq![c] && r.b@.len() == 1 && arow2 == arow + 1 && jrow2 == jrow && r.prop@[0].affine && prop_keys(e, r.prop@[0].a@, s)
        &&& slacks(bounded(r.u@, r.l@), c, r.u@, r.l@) && std_lin(c, e, r.a@, r.b@[0], arow, s)
    } else {
        &&& no_lin(r) && r.cj@ == seq![c] && r.f@.len() == 1 && r.h@.len() == 1 && jrow2 == jrow + 1 && arow2 == arow && !r.prop@[0].affine && prop_keys(e, r.prop@[0].a@, s)
        &&& slacks(bounded(r.u@, r.l@), c, r.u@, r.l@) && std_nl(c, e, r.f@[0], r.j@, r.h@[0]@, jrow, s)
    }
}
pub open spec fn cstd_ok(c: Constraint, arow: int, jrow: int, arow2: int, jrow2: int, r: ConstraintStdComp) -> bool {
    exists|e: Node| #[trigger] exp_of(e, c) && std_of(e, c, arow, jrow, arow2, jrow2, r) }
// ---------------------------------------------------------------- proofs
pub proof fn lem_row_items(s: Seq<(&Node, &F64)>, p: Map<Node, F64>, row: int, a: Seq<(usize, Node, F64)>)
    requires items_of(s, p), a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == row && a[i].1 == *s[i].0 && a[i].2 == *s[i].1,
    ensures row_ok(a, row, p), forall|m: IMap<Node, real>| #[trigger] rowsum(a, m, a.len()) == lin(p, m), forall|x: (usize, Node, F64)| #[trigger] a.push(x).drop_last() == a,
{
    assert forall|x: (usize, Node, F64)| #[trigger] a.push(x).drop_last() == a by { assert(a.push(x).drop_last() =~= a); }
    assert forall|m: IMap<Node, real>| #[trigger] rowsum(a, m, a.len()) == lin(p, m) by { lem_rowsum_items(s, a, m, a.len()); lem_linseq(s, p, m); }
    assert forall|i: int| 0 <= i < a.len() implies p.contains_key((#[trigger] a[i]).1) && p[a[i].1] == a[i].2 by { assert(p.contains_key(*s[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).1 != (#[trigger] a[j]).1 by { assert(*s[i].0 != *s[j].0); }
    assert forall|k: Node| #[trigger] p.contains_key(k) implies exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1 == k by { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(a[i].1 == k); }
}
pub proof fn lem_rowsum_items(s: Seq<(&Node, &F64)>, a: Seq<(usize, Node, F64)>, m: IMap<Node, real>, k: nat)
    requires k <= s.len(), a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1 == *s[i].0 && a[i].2 == *s[i].1,
    ensures rowsum(a, m, k) == linseq(s, m, k),
    decreases k,
{ if k > 0 { lem_rowsum_items(s, a, m, (k - 1) as nat); } }
pub proof fn lem_rowsum_pre(a: Seq<(usize, Node, F64)>, b: Seq<(usize, Node, F64)>, m: IMap<Node, real>, k: nat)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i],
    ensures rowsum(a, m, k) == rowsum(b, m, k),
    decreases k,
{ if k > 0 { lem_rowsum_pre(a, b, m, (k - 1) as nat); } }
} // verus!
verus! {
pub proof fn lem_std_lin_eq(c: Constraint, e: Node, p: Map<Node, F64>, pb: F64, a: Seq<(usize, Node, F64)>, b: F64, row: int)
    requires exp_of(e, c), prop_ok(e, true, p, pb), row_ok(a, row, p), forall|m: IMap<Node, real>| #[trigger] rowsum(a, m, a.len()) == lin(p, m), b.v@ == fv_neg(pb.v@),
    ensures std_lin(c, e, a, b, row, None),
{
    assert forall|m: IMap<Node, real>| #[trigger] cdef(c, m) implies lin_at(c, a, b, None, m) by {
        assert(ok(e, m)); assert(aff_at(e, p, pb, m)); assert(rowsum(a, m, a.len()) == lin(p, m));
        assert forall|i: int| 0 <= i < a.len() implies is_r((#[trigger] a[i]).2) by { assert(p.contains_key(a[i].1)); } }
}
pub proof fn lem_std_lin_sl(c: Constraint, e: Node, p: Map<Node, F64>, pb: F64, a0: Seq<(usize, Node, F64)>, a: Seq<(usize, Node, F64)>, b: F64, row: int, s: Node)
    requires exp_of(e, c), prop_ok(e, true, p, pb), row_ok(a0, row, p), forall|m: IMap<Node, real>| #[trigger] rowsum(a0, m, a0.len()) == lin(p, m), b.v@ == fv_neg(pb.v@),
        a.len() == a0.len() + 1, a.drop_last() == a0, a.last().0 == row, a.last().1 == s, a.last().2.v@ == FV::R(-1real),
    ensures std_lin(c, e, a, b, row, Some(s)),
{
    let n = a0.len() as int;
    assert(a.remove(n) =~= a0);
    assert forall|i: int| 0 <= i < n implies #[trigger] a0[i] == a[i] by { assert(a.drop_last()[i] == a[i]); }
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0 == row by { if i < n { assert(a0[i] == a[i]); assert(a0[i].0 == row); } }
    assert forall|m: IMap<Node, real>| #[trigger] cdef(c, m) implies lin_at(c, a, b, Some(s), m) by {
        assert(ok(e, m)); assert(aff_at(e, p, pb, m)); assert(rowsum(a0, m, a0.len()) == lin(p, m)); lem_rowsum_pre(a0, a, m, a0.len());
        assert(rowsum(a, m, a.len()) == rowsum(a, m, a0.len()) + rv(a[n].2) * m[s]); assert(-1real * m[s] == -m[s]);
        assert forall|i: int| 0 <= i < a.len() implies is_r((#[trigger] a[i]).2) by { if i < n { assert(a0[i] == a[i]); assert(p.contains_key(a0[i].1)); } } }
    assert(row_ok(a.remove(n), row, p));
}
pub proof fn lem_std_bound(c: Constraint, e: Node, p: Map<Node, F64>, pb: F64, x: Node, b: (Node, F64, Constraint))
    requires exp_of(e, c), prop_ok(e, true, p, pb), p.len() == 1, p.contains_key(x), p[x].v@ == FV::R(1real), b == (x, b.1, c), b.1.v@ == fv_neg(pb.v@),
    ensures std_bound(c, b), occ(e, x),
{
    broadcast use vstd::set::group_set_lemmas, vstd::map::group_map_lemmas;
    lem_occ_var(e, x);
    assert forall|m: IMap<Node, real>| #[trigger] cdef(c, m) implies is_r(b.1) && cdiff(c, m) == m[x] - rv(b.1) by {
        assert(ok(e, m)); assert(aff_at(e, p, pb, m));
        let q = p.remove(x); assert(q.dom().len() == 0); assert(q.dom() =~= Set::empty()); lem_lin_empty(q, m); assert(!q.contains_key(x)); lem_lin_put(q, p, m, x); lem_mulfacts(1real, m[x]); }
}
pub proof fn lem_one_key(p: Map<Node, F64>, x: Node, y: Node)
    requires p.len() == 1, p.contains_key(x), p.contains_key(y),
    ensures x == y,
{
    broadcast use vstd::set::group_set_lemmas, vstd::map::group_map_lemmas;
    let q = p.dom().remove(x); assert(q.len() == 0); assert(q =~= Set::empty()); if x != y { assert(q.contains(y)); }
}
/// Equivalence with the constraint: a point satisfies the constraint if and only if some value
/// of the slack makes the standard form hold.  The slack occurs in neither side (it is fresh).
pub proof fn lem_val_dep(n: Node, m: IMap<Node, real>, m2: IMap<Node, real>)
    requires forall|v: Node| #[trigger] occ(n, v) ==> m.contains_key(v) == m2.contains_key(v) && m[v] == m2[v],
    ensures val(n, m) == val(n, m2), ok(n, m) == ok(n, m2),
    decreases n, 1nat, 0nat,
{
    lem_unf(n, m); lem_unf(n, m2);
    match n {
        Node::ConstantScalar(x) => {},
        Node::VariableScalar(x) => { assert(occ(n, n)); },
        Node::FunctionAdd(x) => { assert forall|v: Node| #[trigger] occ_any(args(n), v, args(n).len()) implies occ(n, v) by {} lem_val_dep_sum(n, args(n), m, m2, args(n).len()); },
        Node::FunctionCos(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} lem_val_dep(args(n)[0], m, m2); },
        Node::FunctionSin(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} lem_val_dep(args(n)[0], m, m2); },
        Node::FunctionDiv(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} assert forall|v: Node| #[trigger] occ(args(n)[1], v) implies occ(n, v) by {} lem_val_dep(args(n)[0], m, m2); lem_val_dep(args(n)[1], m, m2); },
        Node::FunctionMul(x) => { assert forall|v: Node| #[trigger] occ(args(n)[0], v) implies occ(n, v) by {} assert forall|v: Node| #[trigger] occ(args(n)[1], v) implies occ(n, v) by {} lem_val_dep(args(n)[0], m, m2); lem_val_dep(args(n)[1], m, m2); },
    }
}
pub proof fn lem_val_dep_sum(n: Node, s: Seq<Node>, m: IMap<Node, real>, m2: IMap<Node, real>, k: nat)
    requires n is FunctionAdd, s == n->FunctionAdd_0.args@, k <= s.len(), forall|v: Node| #[trigger] occ_any(s, v, k) ==> m.contains_key(v) == m2.contains_key(v) && m[v] == m2[v],
    ensures val_sum(s, m, k) == val_sum(s, m2, k), ok_all(s, m, k) == ok_all(s, m2, k),
    decreases n, 0nat, k,
{
    if k > 0 {
        assert forall|v: Node| #[trigger] occ_any(s, v, (k - 1) as nat) implies occ_any(s, v, k) by {}
        assert forall|v: Node| #[trigger] occ(s[k - 1], v) implies occ_any(s, v, k) by {}
        lem_val_dep_sum(n, s, m, m2, (k - 1) as nat); lem_val_dep(s[k - 1], m, m2);
    }
}
pub open spec fn sl_holds(k: ConstraintKind, t: real) -> bool { match k { ConstraintKind::Equal => false, ConstraintKind::LessEqual => t <= 0real, ConstraintKind::GreaterEqual => t >= 0real } }
pub open spec fn lin_holds(a: Seq<(usize, Node, F64)>, b: F64, m: IMap<Node, real>) -> bool { rowsum(a, m, a.len()) == rv(b) }
/// linear row with a slack
pub proof fn lem_equiv_lin(c: Constraint, e: Node, a: Seq<(usize, Node, F64)>, b: F64, row: int, s: Node, m: IMap<Node, real>)
    requires std_lin(c, e, a, b, row, Some(s)), !occ(c_lhs(c), s), !occ(c_rhs(c), s), cdef(c, m), c_kind(c) != ConstraintKind::Equal,
    ensures holds(c_kind(c), val(c_lhs(c), m), val(c_rhs(c), m)) <==> exists|t: real| sl_holds(c_kind(c), t) && lin_holds(a, b, #[trigger] m.insert(s, t)),
{
    assert forall|t: real| lin_holds(a, b, #[trigger] m.insert(s, t)) <==> t == cdiff(c, m) by {
        let m2 = m.insert(s, t); lem_val_dep(c_lhs(c), m, m2); lem_val_dep(c_rhs(c), m, m2); assert(cdef(c, m2)); assert(lin_at(c, a, b, Some(s), m2)); }
    let t = cdiff(c, m); assert(lin_holds(a, b, m.insert(s, t)));
}
pub proof fn lem_equiv_lin_eq(c: Constraint, e: Node, a: Seq<(usize, Node, F64)>, b: F64, row: int, m: IMap<Node, real>)
    requires std_lin(c, e, a, b, row, None), cdef(c, m), c_kind(c) == ConstraintKind::Equal,
    ensures holds(c_kind(c), val(c_lhs(c), m), val(c_rhs(c), m)) <==> lin_holds(a, b, m),
{ assert(lin_at(c, a, b, None, m)); }
pub proof fn lem_equiv_bound(c: Constraint, b: (Node, F64, Constraint), m: IMap<Node, real>)
    requires std_bound(c, b), cdef(c, m),
    ensures holds(ConstraintKind::LessEqual, val(c_lhs(c), m), val(c_rhs(c), m)) <==> m[b.0] <= rv(b.1), holds(ConstraintKind::GreaterEqual, val(c_lhs(c), m), val(c_rhs(c), m)) <==> m[b.0] >= rv(b.1),
{ }
pub proof fn lem_equiv_nl(c: Constraint, e: Node, f: Node, j: Seq<(usize, Node, Node)>, h: Seq<(Node, Node, Node)>, row: int, s: Node, m: IMap<Node, real>)
    requires exp_of(e, c), std_nl(c, e, f, j, h, row, Some(s)), is_var(s), !occ(c_lhs(c), s), !occ(c_rhs(c), s), cdef(c, m), c_kind(c) != ConstraintKind::Equal,
    ensures holds(c_kind(c), val(c_lhs(c), m), val(c_rhs(c), m)) <==> exists|t: real| sl_holds(c_kind(c), t) && val(f, #[trigger] m.insert(s, t)) == 0real,
{
    assert forall|t: real| val(f, #[trigger] m.insert(s, t)) == 0real <==> t == cdiff(c, m) by {
        let m2 = m.insert(s, t); lem_val_dep(c_lhs(c), m, m2); lem_val_dep(c_rhs(c), m, m2); assert(cdef(c, m2)); assert(ok(e, m2)); assert(ok(s, m2)); }
    let t = cdiff(c, m); assert(val(f, m.insert(s, t)) == 0real);
}
pub proof fn lem_equiv_nl_eq(c: Constraint, e: Node, f: Node, j: Seq<(usize, Node, Node)>, h: Seq<(Node, Node, Node)>, row: int, m: IMap<Node, real>)
    requires std_nl(c, e, f, j, h, row, None), cdef(c, m), c_kind(c) == ConstraintKind::Equal,
    ensures holds(c_kind(c), val(c_lhs(c), m), val(c_rhs(c), m)) <==> val(f, m) == 0real,
{ assert(ok(f, m)); }
pub open spec fn jpart(j: Seq<(usize, Node, Node)>, row: int, g: Seq<(Node, Node)>, k: int) -> bool { j.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] j[i]).0 == row && j[i].1 == g[i].0 && j[i].2 == g[i].1 }
pub proof fn lem_std_nl_sl(c: Constraint, e: Node, f: Node, j: Seq<(usize, Node, Node)>, h: Seq<(Node, Node, Node)>, row: int, s: Node, g: Seq<(Node, Node)>)
    requires sub_nn(e, s, f), grad_ok(e, g), hess_ok(e, g, h), j.len() == g.len() + 1, jpart(j.drop_last(), row, g, g.len() as int), j.last().0 == row, j.last().1 == s, minus_one(j.last().2),
    ensures std_nl(c, e, f, j, h, row, Some(s)),
{
    let n = g.len() as int;
    assert(j.remove(n) =~= j.drop_last()); assert(std_jac(e, j.remove(n), h, row, g)); assert(j[n] == j.last());
}
} // verus!
