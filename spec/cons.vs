// ================================================================ hashing
== fn Node::hash
    ensures hash_ok(old(state).s@, final(state).s@, node_key(*self)),
== fn Constraint::hash
    ensures hash_ok(old(state).s@, final(state).s@, cons_key(*self)),
// ================================================================ constraints
== fn PartialEq for Constraint::eq
ret r
    ensures r == (*self == *other),
== fn Clone for Constraint::clone
ret r
    ensures r == *self,
== fn Constraint::new
ret r
    ensures cons_is(r, lhs, kind, rhs, label@),
== fn Constraint::kind
ret r
    ensures *r == c_kind(*self),
== fn Constraint::label
ret r
    ensures r@ == c_label(*self),
== at begin
    broadcast use as_ref_string;
== fn Constraint::lhs
ret r
    ensures *r == c_lhs(*self),
== fn Constraint::rhs
ret r
    ensures *r == c_rhs(*self),
== fn Constraint::violation
ret r
    ensures ev(c_lhs(*self), env_of(var_values@)) is R && ev(c_rhs(*self), env_of(var_values@)) is R ==>
        r.v@ == FV::R(viol(c_kind(*self), ev(c_lhs(*self), env_of(var_values@))->R_0, ev(c_rhs(*self), env_of(var_values@))->R_0)),
== fn Node::equal<f64>
ret r
    ensures cons_is_num(r, *self, ConstraintKind::Equal, other, ""@),
== fn Node::equal<Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::Equal, other, ""@),
== fn Node::equal<&Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::Equal, *other, ""@),
== fn f64::equal<Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::Equal, other, ""@),
== fn f64::equal<&Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::Equal, *other, ""@),
== fn Node::equal_and_tag<f64>
ret r
    ensures cons_is_num(r, *self, ConstraintKind::Equal, other, tag@),
== fn Node::equal_and_tag<Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::Equal, other, tag@),
== fn Node::equal_and_tag<&Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::Equal, *other, tag@),
== fn f64::equal_and_tag<Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::Equal, other, tag@),
== fn f64::equal_and_tag<&Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::Equal, *other, tag@),
== fn Node::leq<f64>
ret r
    ensures cons_is_num(r, *self, ConstraintKind::LessEqual, other, ""@),
== fn Node::leq<Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::LessEqual, other, ""@),
== fn Node::leq<&Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::LessEqual, *other, ""@),
== fn f64::leq<Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::LessEqual, other, ""@),
== fn f64::leq<&Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::LessEqual, *other, ""@),
== fn Node::leq_and_tag<f64>
ret r
    ensures cons_is_num(r, *self, ConstraintKind::LessEqual, other, tag@),
== fn Node::leq_and_tag<Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::LessEqual, other, tag@),
== fn Node::leq_and_tag<&Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::LessEqual, *other, tag@),
== fn f64::leq_and_tag<Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::LessEqual, other, tag@),
== fn f64::leq_and_tag<&Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::LessEqual, *other, tag@),
== fn Node::geq<f64>
ret r
    ensures cons_is_num(r, *self, ConstraintKind::GreaterEqual, other, ""@),
== fn Node::geq<Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::GreaterEqual, other, ""@),
== fn Node::geq<&Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::GreaterEqual, *other, ""@),
== fn f64::geq<Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::GreaterEqual, other, ""@),
== fn f64::geq<&Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::GreaterEqual, *other, ""@),
== fn Node::geq_and_tag<f64>
ret r
    ensures cons_is_num(r, *self, ConstraintKind::GreaterEqual, other, tag@),
== fn Node::geq_and_tag<Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::GreaterEqual, other, tag@),
== fn Node::geq_and_tag<&Node>
ret r
    ensures cons_is(r, *self, ConstraintKind::GreaterEqual, *other, tag@),
== fn f64::geq_and_tag<Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::GreaterEqual, other, tag@),
== fn f64::geq_and_tag<&Node>
ret r
    ensures cons_num_is(r, *self, ConstraintKind::GreaterEqual, *other, tag@),
