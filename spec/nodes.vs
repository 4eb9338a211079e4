// ================================================================ expression nodes
== fn PartialEq for Node::eq
ret r
    ensures r == (*self == *other),
== fn Clone for Node::clone
ret r
    ensures r == *self,
== fn Node::is_constant
ret r
    ensures r == is_const(*self),
== fn Node::is_constant_with_value
ret r
    ensures r == (is_const(*self) && fv_eq(cval(*self), val.v@)),
== fn ConstantScalar::new
ret r
    ensures is_const(r), cval(r) == value.v@,
== fn ConstantScalar::value
ret r
    ensures r == self.value,
== fn ConstantScalar::zero
ret r
    ensures is_const(r), cval(r) == FV::R(0real),
== fn VariableScalar::new
ret r
    ensures is_var(r), fresh(r->VariableScalar_0.id@), r->VariableScalar_0.name@ == name@, r->VariableScalar_0.kind == kind,
== fn VariableScalar::new_continuous
ret r
    ensures is_var(r), fresh(r->VariableScalar_0.id@), r->VariableScalar_0.name@ == name@, r->VariableScalar_0.kind == VariableKind::VarContinuous,
== fn VariableScalar::new_integer
ret r
    ensures is_var(r), fresh(r->VariableScalar_0.id@), r->VariableScalar_0.name@ == name@, r->VariableScalar_0.kind == VariableKind::VarInteger,
== fn VariableScalar::is_continuous
ret r
    ensures r == (self.kind == VariableKind::VarContinuous),
== fn VariableScalar::is_integer
ret r
    ensures r == (self.kind == VariableKind::VarInteger),
== fn VariableScalar::name
ret r
    ensures r@ == self.name@,
== at begin
    broadcast use as_ref_string;
== fn Node::name
ret r
    ensures r@ == (if *self is VariableScalar { self->VariableScalar_0.name@ } else { ""@ }),
== fn FunctionAdd::new
ret r
    requires args@.len() >= 2,
    ensures r is FunctionAdd, r->FunctionAdd_0.args@ == args@,
== fn FunctionMul::new
ret r
    ensures r is FunctionMul, r->FunctionMul_0.args == (arg1, arg2),
== fn FunctionDiv::new
ret r
    requires !zconst(arg2),
    ensures r is FunctionDiv, r->FunctionDiv_0.args == (arg1, arg2),
== fn FunctionSin::new
ret r
    ensures r is FunctionSin, r->FunctionSin_0.arg == arg,
== fn FunctionCos::new
ret r
    ensures r is FunctionCos, r->FunctionCos_0.arg == arg,
// ---------------------------------------------------------------- arguments
== fn ConstantScalar::arguments | VariableScalar::arguments
ret r
    ensures r@.len() == 0,
== fn FunctionAdd::arguments
ret r
    ensures r@.len() == self.args@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.args@[i],
== loop 0 keep
== fn FunctionMul::arguments | FunctionDiv::arguments
ret r
    ensures r@.len() == 2, *r@[0] == self.args.0, *r@[1] == self.args.1,
== fn FunctionSin::arguments | FunctionCos::arguments
ret r
    ensures r@.len() == 1, *r@[0] == self.arg,
== fn Node::arguments
ret r
    ensures r@.len() == args(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == args(*self)[i],
// ---------------------------------------------------------------- evaluate
== fn ConstantScalar::evaluate | VariableScalar::evaluate
ret r
    ensures r.v@ is NaN,
== fn Node::evaluate
ret r
    ensures r.v@ == ev(*self, env_of(var_values@)),
    decreases self,
== at begin
    broadcast use hashing;
== fn FunctionAdd::evaluate
ret r
    ensures r.v@ == ev_sum(self.args@, env_of(var_values@), self.args@.len()),
    decreases self,
== loop 0 sum F64::zero()
    invariant __s0@ == self.args@, __len0 == self.args@.len(), __acc0.v@ == ev_sum(self.args@, env_of(var_values@), __i0 as nat),
== fn FunctionCos::evaluate
ret r
    ensures r.v@ == fv_cos(ev(self.arg, env_of(var_values@))),
    decreases self,
== fn FunctionSin::evaluate
ret r
    ensures r.v@ == fv_sin(ev(self.arg, env_of(var_values@))),
    decreases self,
== fn FunctionDiv::evaluate
ret r
    ensures r.v@ == fv_div(ev(self.args.0, env_of(var_values@)), ev(self.args.1, env_of(var_values@))),
    decreases self,
== fn FunctionMul::evaluate
ret r
    ensures r.v@ == fv_mul(ev(self.args.0, env_of(var_values@)), ev(self.args.1, env_of(var_values@))),
    decreases self,
// ---------------------------------------------------------------- operators
== fn Add<&Node> for &Node::add | Add<Node> for &Node::add | Add<&Node> for Node::add | Add<Node> for Node::add
ret r
    ensures add_nn(self.nd(), rhs.nd(), r),
== at begin
    broadcast use lem_push, lem_one_ok, lem_one_val;
== loop 0
    invariant __len0 == 2, __s0@.len() == 2, __s0@[0] == self.nd(), __s0@[1] == rhs.nd(), opsum(__s0@, args@, c, __i0 as nat),
== at loop 0 begin
    broadcast use lem_push;
    let ghost gops = __s0@;
    let ghost ga0 = args@;
    let ghost gc0 = c;
    proof { lem_ok_at(gops, __i0 as int); assert(*a == gops[__i0 as int]); }
== at loop 0 end
    proof { assert forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, gops.len()) implies accd(args@, c, m, val_sum(gops, m, (__i0 + 1) as nat)) by {
        assert(accd(ga0, gc0, m, val_sum(gops, m, __i0 as nat)));
        assert(val_sum(gops, m, (__i0 + 1) as nat) == val_sum(gops, m, __i0 as nat) + val(gops[__i0 as int], m));
        if !is_const(*a) && !(*a is FunctionAdd) { assert(args@ == ga0.push(*a)); assert(push_fact(args@, ga0, *a)); }
    } }
== at loop 1 before
    let ghost gy = x.args@;
== loop 1
    invariant gops.len() == 2, __s1@.len() == gy.len(), __len1 == gy.len(), forall|i: int| 0 <= i < __len1 ==> *(#[trigger] __s1@[i]) == gy[i],
        forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, 2) ==> ok_all(gy, m, gy.len()),
        opsum2(gops, args@, c, __i0 as nat, gy, __i1 as nat),
== at loop 1 begin
    broadcast use lem_push;
    let ghost ga1 = args@;
    let ghost gc1 = c;
    let ghost gx = *__s1@[__i1 as int];
    proof { lem_ok_at(gy, __i1 as int); assert(gx == gy[__i1 as int]); }
== at loop 1 end
    proof { assert forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, gops.len()) implies accd(args@, c, m, val_sum(gops, m, __i0 as nat) + val_sum(gy, m, (__i1 + 1) as nat)) by {
        assert(accd(ga1, gc1, m, val_sum(gops, m, __i0 as nat) + val_sum(gy, m, __i1 as nat)));
        assert(ok_all(gy, m, gy.len()));
        assert(val_sum(gy, m, (__i1 + 1) as nat) == val_sum(gy, m, __i1 as nat) + val(gy[__i1 as int], m));
        if !is_const(gx) { assert(args@ == ga1.push(gx)); assert(push_fact(args@, ga1, gx)); }
    } }
== at loop 0 after
    proof { lem_two(__s0@, __s0@[0], __s0@[1]); assert(sum2(self.nd(), rhs.nd(), args@, c)); }
== at before "FunctionAdd::new(args)"
    proof { assert(sum2(self.nd(), rhs.nd(), args@, c) || sum2(self.nd(), rhs.nd(), args@, f(FV::R(0real)))); }
== fn Add<f64> for &Node::add | Add<f64> for Node::add
ret r
    ensures add_nf(self.nd(), rhs, r),
== at begin
    broadcast use lem_push, lem_one_ok, lem_one_val;
== loop 0
    invariant __len0 == 2, __s0@.len() == 2, __s0@[0] == self.nd(), is_const(__s0@[1]), cval(__s0@[1]) == rhs.v@, opsum(__s0@, args@, c, __i0 as nat),
== at loop 0 begin
    broadcast use lem_push;
    let ghost gops = __s0@;
    let ghost ga0 = args@;
    let ghost gc0 = c;
    proof { lem_ok_at(gops, __i0 as int); assert(*a == gops[__i0 as int]); }
== at loop 0 end
    proof { assert forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, gops.len()) implies accd(args@, c, m, val_sum(gops, m, (__i0 + 1) as nat)) by {
        assert(accd(ga0, gc0, m, val_sum(gops, m, __i0 as nat)));
        assert(val_sum(gops, m, (__i0 + 1) as nat) == val_sum(gops, m, __i0 as nat) + val(gops[__i0 as int], m));
        if !is_const(*a) && !(*a is FunctionAdd) { assert(args@ == ga0.push(*a)); assert(push_fact(args@, ga0, *a)); }
    } }
== at loop 1 before
    let ghost gy = x.args@;
== loop 1
    invariant gops.len() == 2, __s1@.len() == gy.len(), __len1 == gy.len(), forall|i: int| 0 <= i < __len1 ==> *(#[trigger] __s1@[i]) == gy[i],
        forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, 2) ==> ok_all(gy, m, gy.len()),
        opsum2(gops, args@, c, __i0 as nat, gy, __i1 as nat),
== at loop 1 begin
    broadcast use lem_push;
    let ghost ga1 = args@;
    let ghost gc1 = c;
    let ghost gx = *__s1@[__i1 as int];
    proof { lem_ok_at(gy, __i1 as int); assert(gx == gy[__i1 as int]); }
== at loop 1 end
    proof { assert forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, gops.len()) implies accd(args@, c, m, val_sum(gops, m, __i0 as nat) + val_sum(gy, m, (__i1 + 1) as nat)) by {
        assert(accd(ga1, gc1, m, val_sum(gops, m, __i0 as nat) + val_sum(gy, m, __i1 as nat)));
        assert(ok_all(gy, m, gy.len()));
        assert(val_sum(gy, m, (__i1 + 1) as nat) == val_sum(gy, m, __i1 as nat) + val(gy[__i1 as int], m));
        if !is_const(gx) { assert(args@ == ga1.push(gx)); assert(push_fact(args@, ga1, gx)); }
    } }
== at loop 0 after
    proof { lem_two(__s0@, __s0@[0], __s0@[1]); if is_r(rhs) { assert forall|m: IMap<Node, real>| #[trigger] ok(self.nd(), m) implies accd(args@, c, m, val(self.nd(), m) + rv(rhs)) by { assert(ok(__s0@[1], m)); } } assert(sum1(self.nd(), rhs, args@, c)); }
== at before "FunctionAdd::new(args)"
    proof { assert(sum1(self.nd(), rhs, args@, c) || sum1(self.nd(), rhs, args@, f(FV::R(0real)))); }
== fn Add<&Node> for f64::add | Add<Node> for f64::add
ret r
    ensures add_nf(rhs.nd(), self, r),
== at begin
    broadcast use lem_push, lem_one_ok, lem_one_val;
== loop 0
    invariant __len0 == 2, __s0@.len() == 2, __s0@[1] == rhs.nd(), is_const(__s0@[0]), cval(__s0@[0]) == self.v@, opsum(__s0@, args@, c, __i0 as nat),
== at loop 0 begin
    broadcast use lem_push;
    let ghost gops = __s0@;
    let ghost ga0 = args@;
    let ghost gc0 = c;
    proof { lem_ok_at(gops, __i0 as int); assert(*a == gops[__i0 as int]); }
== at loop 0 end
    proof { assert forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, gops.len()) implies accd(args@, c, m, val_sum(gops, m, (__i0 + 1) as nat)) by {
        assert(accd(ga0, gc0, m, val_sum(gops, m, __i0 as nat)));
        assert(val_sum(gops, m, (__i0 + 1) as nat) == val_sum(gops, m, __i0 as nat) + val(gops[__i0 as int], m));
        if !is_const(*a) && !(*a is FunctionAdd) { assert(args@ == ga0.push(*a)); assert(push_fact(args@, ga0, *a)); }
    } }
== at loop 1 before
    let ghost gy = x.args@;
== loop 1
    invariant gops.len() == 2, __s1@.len() == gy.len(), __len1 == gy.len(), forall|i: int| 0 <= i < __len1 ==> *(#[trigger] __s1@[i]) == gy[i],
        forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, 2) ==> ok_all(gy, m, gy.len()),
        opsum2(gops, args@, c, __i0 as nat, gy, __i1 as nat),
== at loop 1 begin
    broadcast use lem_push;
    let ghost ga1 = args@;
    let ghost gc1 = c;
    let ghost gx = *__s1@[__i1 as int];
    proof { lem_ok_at(gy, __i1 as int); assert(gx == gy[__i1 as int]); }
== at loop 1 end
    proof { assert forall|m: IMap<Node, real>| #[trigger] ok_all(gops, m, gops.len()) implies accd(args@, c, m, val_sum(gops, m, __i0 as nat) + val_sum(gy, m, (__i1 + 1) as nat)) by {
        assert(accd(ga1, gc1, m, val_sum(gops, m, __i0 as nat) + val_sum(gy, m, __i1 as nat)));
        assert(ok_all(gy, m, gy.len()));
        assert(val_sum(gy, m, (__i1 + 1) as nat) == val_sum(gy, m, __i1 as nat) + val(gy[__i1 as int], m));
        if !is_const(gx) { assert(args@ == ga1.push(gx)); assert(push_fact(args@, ga1, gx)); }
    } }
== at loop 0 after
    proof { lem_two(__s0@, __s0@[0], __s0@[1]); if is_r(self) { assert forall|m: IMap<Node, real>| #[trigger] ok(rhs.nd(), m) implies accd(args@, c, m, val(rhs.nd(), m) + rv(self)) by { assert(ok(__s0@[0], m)); } } assert(sum1(rhs.nd(), self, args@, c)); }
== at before "FunctionAdd::new(args)"
    proof { assert(sum1(rhs.nd(), self, args@, c) || sum1(rhs.nd(), self, args@, f(FV::R(0real)))); }
== fn Mul<&Node> for &Node::mul
ret res
    ensures mul_nn(self.nd(), rhs.nd(), res), zconst(res) ==> zconst(self.nd()) || zconst(rhs.nd()),
    decreases self, rhs,
== at begin
    broadcast use hashing;
== loop 0 vec Vec<Node>
    invariant __s0@.len() == args(r).len(), __len0 == __s0@.len(), forall|i: int| 0 <= i < __len0 ==> *(#[trigger] __s0@[i]) == args(r)[i],
        s == self.nd(), r == rhs.nd(), r is FunctionAdd, __acc0@.len() == __i0, muls(s, args(r), __acc0@, __i0 as int),
== at loop 0 begin
    proof { assert(*__s0@[__i0 as int] == args(r)[__i0 as int]); }
== at loop 0 after
    add_inv(_y);
    proof { lem_muls(s, args(r), __acc0@); }
== loop 1 vec Vec<Node>
    invariant __s1@.len() == args(s).len(), __len1 == __s1@.len(), forall|i: int| 0 <= i < __len1 ==> *(#[trigger] __s1@[i]) == args(s)[i],
        s == self.nd(), r == rhs.nd(), s is FunctionAdd, __acc1@.len() == __i1, muls_r(args(s), r, __acc1@, __i1 as int),
== at loop 1 begin
    proof { assert(*__s1@[__i1 as int] == args(s)[__i1 as int]); }
== at loop 1 after
    add_inv(_x);
    proof { lem_muls_r(args(s), r, __acc1@); }
== at tail gres
    proof { assert forall|m: IMap<Node, real>| ok(self.nd(), m) && ok(rhs.nd(), m) implies ok(gres, m) && val(gres, m) == val(self.nd(), m) * val(rhs.nd(), m) by { lem_mulfacts(val(self.nd(), m), val(rhs.nd(), m)); lem_unf(self.nd(), m); lem_unf(rhs.nd(), m); lem_unf(gres, m); }
        if is_const(self.nd()) && is_const(rhs.nd()) && cval(self.nd()) is R && cval(rhs.nd()) is R { let (gx, gy) = (cval(self.nd())->R_0, cval(rhs.nd())->R_0); assert(gx * gy == 0real ==> gx == 0real || gy == 0real) by (nonlinear_arith); } }
== fn Mul<Node> for &Node::mul | Mul<&Node> for Node::mul | Mul<Node> for Node::mul
ret res
    ensures mul_nn(self.nd(), rhs.nd(), res), zconst(res) ==> zconst(self.nd()) || zconst(rhs.nd()),
    decreases self, rhs,
== at begin
    broadcast use hashing;
== loop 0 vec Vec<Node>
    invariant __s0@.len() == args(r).len(), __len0 == __s0@.len(), forall|i: int| 0 <= i < __len0 ==> *(#[trigger] __s0@[i]) == args(r)[i],
        s == self.nd(), r == rhs.nd(), r is FunctionAdd, __acc0@.len() == __i0, muls(s, args(r), __acc0@, __i0 as int),
== at loop 0 begin
    proof { assert(*__s0@[__i0 as int] == args(r)[__i0 as int]); }
== at loop 0 after
    add_inv(_y);
    proof { lem_muls(s, args(r), __acc0@); }
== loop 1 vec Vec<Node>
    invariant __s1@.len() == args(s).len(), __len1 == __s1@.len(), forall|i: int| 0 <= i < __len1 ==> *(#[trigger] __s1@[i]) == args(s)[i],
        s == self.nd(), r == rhs.nd(), s is FunctionAdd, __acc1@.len() == __i1, muls_r(args(s), r, __acc1@, __i1 as int),
== at loop 1 begin
    proof { assert(*__s1@[__i1 as int] == args(s)[__i1 as int]); }
== at loop 1 after
    add_inv(_x);
    proof { lem_muls_r(args(s), r, __acc1@); }
== at tail gres
    proof { assert forall|m: IMap<Node, real>| ok(self.nd(), m) && ok(rhs.nd(), m) implies ok(gres, m) && val(gres, m) == val(self.nd(), m) * val(rhs.nd(), m) by { lem_mulfacts(val(self.nd(), m), val(rhs.nd(), m)); lem_unf(self.nd(), m); lem_unf(rhs.nd(), m); lem_unf(gres, m); }
        if is_const(self.nd()) && is_const(rhs.nd()) && cval(self.nd()) is R && cval(rhs.nd()) is R { let (gx, gy) = (cval(self.nd())->R_0, cval(rhs.nd())->R_0); assert(gx * gy == 0real ==> gx == 0real || gy == 0real) by (nonlinear_arith); } }
== fn Mul<f64> for &Node::mul | Mul<f64> for Node::mul
ret res
    ensures mul_nf(self.nd(), rhs, res),
    decreases self,
== loop 0 vec Vec<Node>
    invariant __s0@.len() == args(s).len(), __len0 == __s0@.len(), forall|i: int| 0 <= i < __len0 ==> *(#[trigger] __s0@[i]) == args(s)[i],
        s == self.nd(), r == rhs, s is FunctionAdd, __acc0@.len() == __i0, muls_f(r, args(s), __acc0@, __i0 as int),
== at loop 0 begin
    proof { assert(*__s0@[__i0 as int] == args(s)[__i0 as int]); }
== at loop 0 after
    add_inv(_x);
    proof { if is_r(r) { lem_muls_f(r, args(s), __acc0@); } }
== at tail gres
    proof { if is_r(rhs) { assert forall|m: IMap<Node, real>| ok(self.nd(), m) implies ok(gres, m) && val(gres, m) == val(self.nd(), m) * rv(rhs) by { lem_mulfacts(val(self.nd(), m), rv(rhs)); lem_unf(self.nd(), m); lem_unf(gres, m); } } }
== fn Mul<&Node> for f64::mul | Mul<Node> for f64::mul
ret res
    ensures mul_nf(rhs.nd(), self, res),
    decreases rhs,
== loop 0 vec Vec<Node>
    invariant __s0@.len() == args(r).len(), __len0 == __s0@.len(), forall|i: int| 0 <= i < __len0 ==> *(#[trigger] __s0@[i]) == args(r)[i],
        s == self, r == rhs.nd(), r is FunctionAdd, __acc0@.len() == __i0, muls_f(s, args(r), __acc0@, __i0 as int),
== at loop 0 begin
    proof { assert(*__s0@[__i0 as int] == args(r)[__i0 as int]); }
== at loop 0 after
    add_inv(_x);
    proof { if is_r(s) { lem_muls_f(s, args(r), __acc0@); } }
== at tail gres
    proof { if is_r(self) { assert forall|m: IMap<Node, real>| ok(rhs.nd(), m) implies ok(gres, m) && val(gres, m) == val(rhs.nd(), m) * rv(self) by { lem_mulfacts(val(rhs.nd(), m), rv(self)); lem_unf(rhs.nd(), m); lem_unf(gres, m); } } }
== fn Neg for &Node::neg | Neg for Node::neg
ret res
    ensures neg_n(self.nd(), res),
== at tail gres
    proof { assert forall|m: IMap<Node, real>| ok(self.nd(), m) implies ok(gres, m) && val(gres, m) == -val(self.nd(), m) by { lem_mulfacts(val(self.nd(), m), -1real); lem_mulfacts(1real, val(self.nd(), m)); assert(val(self.nd(), m) * (-1real) == -val(self.nd(), m)) by (nonlinear_arith); } }
== fn Sub<&Node> for &Node::sub | Sub<Node> for &Node::sub | Sub<&Node> for Node::sub | Sub<Node> for Node::sub
ret res
    ensures sub_nn(self.nd(), rhs.nd(), res),
== at tail gres
    proof { assert forall|m: IMap<Node, real>| ok(self.nd(), m) && ok(rhs.nd(), m) implies ok(gres, m) && val(gres, m) == val(self.nd(), m) - val(rhs.nd(), m) by { assert(val(rhs.nd(), m) * (-1real) == -val(rhs.nd(), m)) by (nonlinear_arith); } }
== fn Sub<f64> for &Node::sub | Sub<f64> for Node::sub
ret res
    ensures sub_nf(self.nd(), rhs, res),
== at tail gres
    proof { if is_r(rhs) { assert forall|m: IMap<Node, real>| ok(self.nd(), m) implies ok(gres, m) && val(gres, m) == val(self.nd(), m) - rv(rhs) by { assert(rv(rhs) * (-1real) == -rv(rhs)) by (nonlinear_arith); } } }
== fn Sub<&Node> for f64::sub | Sub<Node> for f64::sub
ret res
    ensures sub_fn(self, rhs.nd(), res),
== at tail gres
    proof { if is_r(self) { assert forall|m: IMap<Node, real>| ok(rhs.nd(), m) implies ok(gres, m) && val(gres, m) == rv(self) - val(rhs.nd(), m) by { assert(val(rhs.nd(), m) * (-1real) == -val(rhs.nd(), m)) by (nonlinear_arith); } } }
== fn Div<&Node> for &Node::div | Div<Node> for &Node::div | Div<&Node> for Node::div | Div<Node> for Node::div
ret res
req !zconst(rhs.nd())
    ensures div_nn(self.nd(), rhs.nd(), res),
== at begin
    broadcast use hashing;
== at tail gres
    proof { lem_div_built(self.nd(), rhs.nd(), gres); }
== fn Div<f64> for &Node::div | Div<f64> for Node::div
ret res
req rhs.v@ != FV::R(0real)
    ensures div_nf(self.nd(), rhs, res),
== at begin
    broadcast use hashing;
== at tail gres
    proof { if is_r(rhs) { assert forall|m: IMap<Node, real>| ok(self.nd(), m) implies ok(gres, m) && val(gres, m) == val(self.nd(), m) / rv(rhs) by { lem_divfacts(val(self.nd(), m), rv(rhs)); lem_unf(gres, m); } } }
== fn Div<&Node> for f64::div | Div<Node> for f64::div
ret res
req !zconst(rhs.nd())
    ensures div_fn(self, rhs.nd(), res),
== at begin
    broadcast use hashing;
== at tail gres
    proof { if is_r(self) { assert forall|m: IMap<Node, real>| ok(rhs.nd(), m) && val(rhs.nd(), m) != 0real implies ok(gres, m) && val(gres, m) == rv(self) / val(rhs.nd(), m) by { lem_divfacts(rv(self), val(rhs.nd(), m)); lem_unf(gres, m); } } }
== fn Node::sin
ret res
    ensures forall|m: IMap<Node, real>| #![trigger ok(*self, m)] #![trigger ok(res, m)] ok(*self, m) ==> ok(res, m) && val(res, m) == rsin(val(*self, m)),
== at tail gres
    proof { assert forall|m: IMap<Node, real>| ok(*self, m) implies ok(gres, m) && val(gres, m) == rsin(val(*self, m)) by { lem_unf(gres, m); } }
== fn Node::cos
ret res
    ensures forall|m: IMap<Node, real>| #![trigger ok(*self, m)] #![trigger ok(res, m)] ok(*self, m) ==> ok(res, m) && val(res, m) == rcos(val(*self, m)),
== at tail gres
    proof { assert forall|m: IMap<Node, real>| ok(*self, m) implies ok(gres, m) && val(gres, m) == rcos(val(*self, m)) by { lem_unf(gres, m); } }
// ---------------------------------------------------------------- partial derivatives
== fn ConstantScalar::partial
ret r
    ensures is_const(r), cval(r) == FV::R(0real),
== fn VariableScalar::partial
ret r
    ensures is_const(r), cval(r) == FV::R(if arg is VariableScalar && *arg->VariableScalar_0 == *self { 1real } else { 0real }),
== fn FunctionAdd::partial
ret r
    ensures is_const(r), cval(r) == FV::R(if self.args@.contains(*arg) { 1real } else { 0real }),
== loop 0
    invariant __s0@ == self.args@, __len0 == self.args@.len(), forall|i: int| 0 <= i < __i0 ==> self.args@[i] != *arg,
== fn FunctionMul::partial
ret r
    ensures forall|m: IMap<Node, real>| ok(self.args.0, m) && ok(self.args.1, m) ==> #[trigger] ok(r, m) && val(r, m) == pv_mul(self.args.0, self.args.1, *arg, m),
== fn FunctionDiv::partial
ret r
    ensures forall|m: IMap<Node, real>| ok(self.args.0, m) && ok(self.args.1, m) && val(self.args.1, m) != 0real ==> #[trigger] ok(r, m) && val(r, m) == pv_div(self.args.0, self.args.1, *arg, m),
== at begin
    div_inv(self);
    proof { assert forall|m: IMap<Node, real>| val(self.args.1, m) != 0real && #[trigger] ok(self.args.1, m) implies nz2(val(self.args.1, m)) by { lem_nz2(val(self.args.1, m)); } }
== fn FunctionSin::partial
ret r
    ensures forall|m: IMap<Node, real>| ok(self.arg, m) ==> #[trigger] ok(r, m) && val(r, m) == (if self.arg == *arg { rcos(val(self.arg, m)) } else { 0real }),
== fn FunctionCos::partial
ret r
    ensures forall|m: IMap<Node, real>| ok(self.arg, m) ==> #[trigger] ok(r, m) && val(r, m) == (if self.arg == *arg { -rsin(val(self.arg, m)) } else { 0real }),
== fn Node::partial
ret r
    ensures part_r(*self, *arg, r),
== at tail gres
    proof { assert(part_built(*self, *arg, gres)); lem_part(*self, *arg, gres); }
// ---------------------------------------------------------------- derivatives
== fn Node::all_simple_paths
ret r
    requires forall|i: int| 0 <= i < vars@.len() ==> is_var(*(#[trigger] vars@[i])),
    ensures paths_ok(*self, vars@, r@),
== at begin
    broadcast use hashing;
== loop 0
    invariant __s0@ == vars@, __len0 == vars@.len(), forall|i: int| 0 <= i < vars@.len() ==> is_var(*(#[trigger] vars@[i])),
== loop 1 hashset
    invariant __s1@ == vars@, __len1 == vars@.len(), forall|k: &Node| #[trigger] __acc1@.contains(k) <==> exists|i: int| 0 <= i < __i1 && *(#[trigger] vars@[i]) == *k,
== loop 2 items
    invariant __len2 == __s2@.len(), elems_of(__s2@, varset@),
        forall|k: Node| #[trigger] paths@.contains_key(k) <==> exists|i: int| 0 <= i < __i2 && **(#[trigger] __s2@[i]) == k,
        forall|k: Node| #[trigger] paths@.contains_key(k) ==> paths@[k]@.len() == 0,
== at loop 2 after
    proof { assert forall|k: Node| #[trigger] paths@.contains_key(k) <==> in_vars(vars@, k) by {
        if paths@.contains_key(k) { let i = choose|i: int| 0 <= i < __len2 && **(#[trigger] __s2@[i]) == k; assert(varset@.contains(*__s2@[i])); }
        if in_vars(vars@, k) { assert(varset@.contains(&k)); } }
        assert(wq@[0]@ =~= seq![*self]); assert(wq@ =~= seq![wq@[0]]);
        lem_trav_start(*self, paths@, wq@, wq@[0]); }
== loop 3
    invariant
        forall|k: Node| #[trigger] paths@.contains_key(k) <==> in_vars(vars@, k),
        forall|i: int| 0 <= i < vars@.len() ==> is_var(*(#[trigger] vars@[i])),
        forall|k: &Node| #[trigger] varset@.contains(k) <==> exists|i: int| 0 <= i < vars@.len() && *(#[trigger] vars@[i]) == *k,
        forall|k: Node| #[trigger] paths@.contains_key(k) ==> all_paths_to(paths@[k]@, *self, k),
        all_paths(wq@, *self), trav(*self, paths@, wq@, seq![], -1),
    ensures wq@.len() == 0,
    decreases wtsz(wq@),
== at loop 3 begin
    let ghost gw0 = wq@;
    let ghost gp0 = paths@;
== at before "let node = path.last"
    let ghost gw1 = wq@;
    proof { assert(gw0 =~= seq![path] + gw1 || gw0 =~= gw1.push(path)); lem_wq_add(gw1, path, gw0); lem_all_paths_add(gw1, gw0, path, *self); lem_tsz(path@[path@.len() - 1]); }
== loop 4 items
    invariant __len4 == __s4@.len(), elems_of(__s4@, varset@), *node == path@[path@.len() - 1], path@.len() >= 1, is_var(*node),
        varset@.contains(node) == gp0.contains_key(*node),
        (forall|j: int| 0 <= j < __i4 ==> **(#[trigger] __s4@[j]) != *node) ==> paths@ == gp0,
        (exists|j: int| 0 <= j < __i4 && **(#[trigger] __s4@[j]) == *node) ==> coll(gp0, paths@, path@),
== at loop 4 end
    proof { if *v == node { assert forall|j: int| 0 <= j < __i4 implies **(#[trigger] __s4@[j]) != *node by {} assert(paths@[*node]@.drop_last() =~= gp0[*node]@); assert(coll(gp0, paths@, path@)); } }
== loop 5 vec Vec<Node>
    invariant __s5@ == path@, __len5 == path@.len(), __acc5@ == path@.take(__i5 as int),
== at loop 5 after
    assert(__acc5@ =~= path@);
== loop 6 items
    invariant __len6 == __s6@.len(), __s6@.len() == args(*node).len(), forall|i: int| 0 <= i < __len6 ==> *(#[trigger] __s6@[i]) == args(*node)[i],
        *node == path@[path@.len() - 1], path_from(*self, path@),
        trav(*self, paths@, wq@, path@, __i6 as int), all_paths(wq@, *self),
        wtsz(wq@) == wtsz(gw1) + asz(*node, __i6 as nat),
== at loop 6 before
    proof { assert(coll(gp0, paths@, path@)); lem_coll_to(*self, gp0, paths@, path@); lem_trav_collect(*self, gp0, paths@, gw0, wq@, path); }
== at loop 6 begin
    let ghost gw2 = wq@;
    proof { assert(*__s6@[__i6 as int] == args(*node)[__i6 as int]); }
== at loop 6 end
    proof { let x = choose|x: Vec<Node>| popped(wq@, gw2, x) && x@ == path@.push(*n);  lem_trav_arg(*self, paths@, gw2, wq@, path@, __i6 as nat, x); lem_path_push(path@, *n); lem_all_paths_add(gw2, wq@, x, *self); }
== loop 7 vec Vec<Node>
    invariant __s7@ == path@, __len7 == path@.len(), __acc7@ == path@.take(__i7 as int),
== at loop 7 after
    assert(__acc7@ =~= path@);
== at loop 3 end
    proof { lem_trav_end(*self, paths@, wq@, path@); }
== fn Node::derivatives
ret r
    requires forall|i: int| 0 <= i < vars@.len() ==> is_var(*(#[trigger] vars@[i])),
    ensures ders_ok(*self, vars@, r@),
== at begin
    broadcast use hashing;
== loop 0
    invariant __s0@ == vars@, __len0 == vars@.len(), forall|i: int| 0 <= i < vars@.len() ==> is_var(*(#[trigger] vars@[i])),
== loop 1 hashset
    invariant __s1@ == vars@, __len1 == vars@.len(), forall|k: &Node| #[trigger] __acc1@.contains(k) <==> exists|i: int| 0 <= i < __i1 && *(#[trigger] vars@[i]) == *k,
== loop 2 items
    invariant __len2 == __s2@.len(), elems_of(__s2@, varset@), paths_ok(*self, vars@, paths@),
        forall|k: &Node| #[trigger] varset@.contains(k) <==> in_vars(vars@, *k),
        forall|k: Node| #[trigger] derivs@.contains_key(k) <==> exists|i: int| 0 <= i < __i2 && **(#[trigger] __s2@[i]) == k,
        forall|k: Node| #[trigger] derivs@.contains_key(k) ==> der_ok(*self, k, derivs@[k]),
== at loop 2 begin
    proof { assert(varset@.contains(*__s2@[__i2 as int])); assert(paths@.contains_key(**__s2@[__i2 as int])); }
== loop 3 refs
    invariant __s3@ == paths@[**v]@, __len3 == __s3@.len(), all_paths_to(__s3@, *self, **v),
        forall|m: IMap<Node, real>| #![trigger ok(*self, m)] ok(*self, m) ==> ok(d, m) && val(d, m) == fsum(__s3@, m, __i3 as nat),
== loop 4
    invariant __s4@ == path@, path_from(*self, path@), __len4 == path@.len() - 1, __len4 < usize::MAX,
        forall|m: IMap<Node, real>| #![trigger ok(*self, m)] ok(*self, m) ==> ok(prod, m) && val(prod, m) == pprod(path@, m, (__i4 + 1) as nat),
== at loop 4 begin
    proof { assert forall|m: IMap<Node, real>| ok(*self, m) implies ok(path@[__i4 as int], m) by { lem_ok_path(path@, m, __i4 as nat); } }
== at loop 2 end
    proof { assert(der_ok(*self, **v, d)); }
== at loop 2 after
    proof { assert forall|k: Node| #[trigger] derivs@.contains_key(k) <==> in_vars(vars@, k) by {
        if derivs@.contains_key(k) { let i = choose|i: int| 0 <= i < __len2 && **(#[trigger] __s2@[i]) == k; assert(varset@.contains(*__s2@[i])); }
        if in_vars(vars@, k) { assert(varset@.contains(&k)); } } }
== fn Node::derivative
ret r
    requires is_var(*var),
    ensures der_ok(*self, *var, r),
== at begin
    broadcast use hashing;
// ---------------------------------------------------------------- affine form
== fn Node::std_properties
ret r
    ensures prop_ok(*self, r.affine, r.a@, r.b),
    decreases self,
== at begin
    broadcast use hashing;
== at tail gres
    proof { match self {
        Node::ConstantScalar(x) => { assert forall|m: IMap<Node, real>| #[trigger] ok(*self, m) implies aff_at(*self, gres.a@, gres.b, m) by { lem_lin_empty(gres.a@, m); assert forall|k: Node| #[trigger] der(*self, k, m) == cf(gres.a@, k) by { lem_unf_der(*self, k, m); } } }
        Node::VariableScalar(x) => { assert forall|m: IMap<Node, real>| #[trigger] ok(*self, m) implies aff_at(*self, gres.a@, gres.b, m) by { let e = gres.a@.remove(*self); lem_lin_empty(e, m); lem_lin_put(e, gres.a@, m, *self); lem_mulfacts(1real, m[*self]); assert forall|k: Node| #[trigger] der(*self, k, m) == cf(gres.a@, k) by { lem_unf_der(*self, k, m); } } }
        Node::FunctionAdd(x) => { assert forall|m: IMap<Node, real>| #[trigger] ok(*self, m) && gres.affine implies aff_at(*self, gres.a@, gres.b, m) by { lem_unf(*self, m); assert(ok_all(args(*self), m, args(*self).len())); assert(aff_sum_at(args(*self), args(*self).len(), gres.a@, gres.b, m)); assert forall|k: Node| #[trigger] der(*self, k, m) == cf(gres.a@, k) by { lem_unf_der(*self, k, m); assert(der_sum(args(*self), k, m, args(*self).len()) == cf(gres.a@, k)); } } }
        _ => { assert forall|m: IMap<Node, real>| #[trigger] ok(*self, m) && gres.affine implies aff_at(*self, gres.a@, gres.b, m) by { lem_unf(*self, m); assert(aff_fin_at(args(*self)[0], args(*self)[1], self is FunctionMul, gres.a@, gres.b, m)); assert forall|k: Node| #[trigger] der(*self, k, m) == cf(gres.a@, k) by { lem_unf_der(*self, k, m); assert(cf(gres.a@, k) == cf(gres.a@, k)); } } }
    } }
== fn FunctionSin::std_properties | FunctionCos::std_properties
ret r
    ensures !r.affine, forall|k: Node| #[trigger] r.a@.contains_key(k) <==> occ(self.arg, k),
    decreases self,
== fn FunctionMul::std_properties
ret r
    ensures forall|k: Node| #[trigger] r.a@.contains_key(k) <==> occ(self.args.0, k) || occ(self.args.1, k), r.affine ==> aff_fin(self.args.0, self.args.1, true, r.a@, r.b),
    decreases self,
== at begin
    broadcast use hashing;
== loop 0 items
    invariant __len0 == __s0@.len(), items_of(__s0@, p0.a@), dom_plus(Map::empty(), __s0@, a@, __i0 as int), scal(__s0@, a@, __i0 as int, p1.b.v@, true),
== at loop 0 after
    proof { lem_dom_plus(Map::empty(), __s0@, p0.a@, a@); lem_scal(__s0@, p0.a@, a@, p1.b.v@, true); }
== at loop 1 before
    let ghost ga = a@;
== loop 1 items
    invariant __len1 == __s1@.len(), items_of(__s1@, p1.a@), dom_plus(ga, __s1@, a@, __i1 as int), scal(__s1@, a@, __i1 as int, p0.b.v@, true), __len1 == 0 ==> a@ == ga,
== at loop 1 after
    proof { lem_dom_plus(ga, __s1@, p1.a@, a@); lem_scal(__s1@, p1.a@, a@, p0.b.v@, true); if p1.a@.len() == 0 { lem_no_items(__s1@, p1.a@); } }
== at pretail
    proof { if affine { lem_aff_mul(self.args.0, self.args.1, p0.a@, p0.b, p1.a@, p1.b, a@, b); } }
== fn FunctionDiv::std_properties
ret r
    ensures forall|k: Node| #[trigger] r.a@.contains_key(k) <==> occ(self.args.0, k) || occ(self.args.1, k), r.affine ==> aff_fin(self.args.0, self.args.1, false, r.a@, r.b),
    decreases self,
== at begin
    broadcast use hashing;
== loop 0 items
    invariant __len0 == __s0@.len(), items_of(__s0@, p0.a@), dom_plus(Map::empty(), __s0@, a@, __i0 as int), scal(__s0@, a@, __i0 as int, p1.b.v@, false),
== at loop 0 after
    proof { lem_dom_plus(Map::empty(), __s0@, p0.a@, a@); lem_scal(__s0@, p0.a@, a@, p1.b.v@, false); }
== at loop 1 before
    let ghost ga = a@;
== loop 1 items
    invariant __len1 == __s1@.len(), items_of(__s1@, p1.a@), dom_plus(ga, __s1@, a@, __i1 as int), __len1 == 0 ==> a@ == ga,
== at loop 1 after
    proof { lem_dom_plus(ga, __s1@, p1.a@, a@); if p1.a@.len() == 0 { lem_no_items(__s1@, p1.a@); } }
== at pretail
    proof { if affine { lem_aff_div(self.args.0, self.args.1, p0.a@, p0.b, p1.a@, p1.b, a@, b); } }
== fn FunctionAdd::std_properties
ret r
    ensures forall|k: Node| #[trigger] r.a@.contains_key(k) <==> occ_any(self.args@, k, self.args@.len()), r.affine ==> aff_sum(self.args@, self.args@.len(), r.a@, r.b),
    decreases self,
== at begin
    broadcast use hashing;
== at loop 0 before
    proof { assert forall|m: IMap<Node, real>| #[trigger] ok_all(self.args@, m, self.args@.len()) implies val_sum(self.args@, m, 0) == lin(a@, m) + rv(b) by { lem_lin_empty(a@, m); } }
== loop 0
    invariant __len0 == self.args@.len(), __s0@.len() == __len0, forall|i: int| 0 <= i < __len0 ==> *(#[trigger] __s0@[i]) == self.args@[i],
        forall|k: Node| #[trigger] a@.contains_key(k) <==> occ_any(self.args@, k, __i0 as nat), affine ==> aff_sum(self.args@, __i0 as nat, a@, b),
== at loop 0 begin
    proof { assert(*__s0@[__i0 as int] == self.args@[__i0 as int]); }
    let ghost ga = a@;
    let ghost gb = b;
    let ghost mut gs1: Seq<(&Node, &F64)> = seq![];
== at loop 0 end
    proof { if affine { lem_aff_sum_step(self.args@, __i0 as nat, ga, gb, p.a@, p.b, gs1, a@, b); } }
== loop 1 items
    invariant __len1 == __s1@.len(), items_of(__s1@, p.a@), dom_plus(ga, __s1@, a@, __i1 as int), all_r(ga) && all_r(p.a@) ==> vals_plus(ga, __s1@, a@, __i1 as int),
== at loop 1 begin
    let ghost ga1 = a@;
    proof { assert(p.a@.contains_key(*__s1@[__i1 as int].0)); }
== at loop 1 end
    proof { if all_r(ga) && all_r(p.a@) { lem_add_step(ga, __s1@, ga1, a@, __i1 as int, *key, *val); } }
== at loop 1 after
    proof { lem_dom_plus(ga, __s1@, p.a@, a@); gs1 = __s1@; }
// ---------------------------------------------------------------- standard components
== fn Node::std_components
ret r
    ensures comp_ok(*self, r),
== at begin
    broadcast use hashing;
== loop 0 items
    invariant __len0 == __s0@.len(), items_of(__s0@, prop.a@), gphi@.len() == __i0, hphi@.len() == 0,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] gphi@[i]).0 == *__s0@[i].0 && is_const(gphi@[i].1) && cval(gphi@[i].1) == (*__s0@[i].1).v@,
== at loop 0 after
    proof { lem_grad_affine(*self, __s0@, prop.a@, prop.b, gphi@); assert(hphi@ =~= Seq::empty()); }
== loop 1 items vec Vec<&Node>
    invariant __len1 == __s1@.len(), elems_of(__s1@, prop.a@.dom()), __acc1@ == __s1@.take(__i1 as int),
== at loop 1 after
    assert(__acc1@ =~= __s1@);
    proof { lem_vars_of(*self, __acc1@, prop.a@); }
== at loop 2 before
    let ghost mut gi: Seq<(int, int)> = Seq::empty();
    proof { assert forall|i: int| 0 <= i < vars@.len() implies in_vars(vars@, *(#[trigger] vars@[i])) by {} }
== loop 2
    invariant __s2@ == vars@, __len2 == vars@.len(), vars_of(*self, vars@), ders_ok(*self, vars@, derivs@), forall|i: int| 0 <= i < vars@.len() ==> is_var(*(#[trigger] vars@[i])) && derivs@.contains_key(*vars@[i]),
        gphi@.len() == __i2, gpart(*self, vars@, gphi@), hpart(*self, vars@, gphi@, hphi@, gi, __i2 as int, 0),
== at loop 2 begin
    let ghost gg = gphi@;
    proof { assert(derivs@.contains_key(*vars@[__i2 as int])); }
== loop 3 vec Vec<&Node>
    invariant __s3@ == vars@, __len3 == vars@.len(), i == __i2, __acc3@.len() == (if __i3 <= __i2 { 0int } else { __i3 - __i2 }), forall|x: int| 0 <= x < __acc3@.len() ==> #[trigger] __acc3@[x] == vars@[__i2 + x],
== at loop 4 before
    proof { assert(gphi@.drop_last() =~= gg); lem_hpart_grow(*self, vars@, gg, gphi@, hphi@, gi, __i2 as int); }
    proof { assert forall|x: int| 0 <= x < dvars@.len() implies in_vars(dvars@, *(#[trigger] dvars@[x])) by {} }
== loop 4
    invariant __s4@ == dvars@, __len4 == dvars@.len(), dvars@.len() == vars@.len() - __i2, forall|x: int| 0 <= x < dvars@.len() ==> #[trigger] dvars@[x] == vars@[__i2 + x] && dderivs@.contains_key(*dvars@[x]),
        ders_ok(*d, dvars@, dderivs@), 0 <= __i2 < vars@.len(), *var1 == vars@[__i2 as int], gphi@[__i2 as int].1 == *d,
        gphi@.len() == __i2 + 1, gpart(*self, vars@, gphi@), hpart(*self, vars@, gphi@, hphi@, gi, __i2 as int, __i4 as int),
== at loop 4 begin
    let ghost gh = hphi@;
    proof { assert(dvars@[__i4 as int] == vars@[__i2 + __i4]); assert(dderivs@.contains_key(*dvars@[__i4 as int])); }
== at loop 4 end
    proof { if hphi@.len() > gh.len() { assert(hphi@.drop_last() =~= gh); } lem_hpart_step(*self, vars@, gphi@, gh, hphi@, gi, __i2 as int, __i4 as int, *dd); if hphi@.len() > gh.len() { gi = gi.push((__i2 as int, __i2 + __i4)); } }
== at loop 4 after
    proof { lem_hpart_next(*self, vars@, gphi@, hphi@, gi, __i2 as int, __len4 as int); }
== at loop 2 after
    proof { lem_hess_fin(*self, vars@, gphi@, hphi@, gi); }
