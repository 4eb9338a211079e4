== config type ProblemEval EvalFn
== config method copy_from_slice .rt_copy_from_slice
// -------------------------------------------------------------- MINLP
== fn ProblemMinlp::new
    requires dims_ok(a.shape.1 as int, a.shape.0 as int, j.shape.0 as int, hphi, b@.len() as int, h@, l@.len() as int, u@.len() as int, p@.len() as int), j.shape.1 == a.shape.1,
        a.wf(), hphi.wf(), j.wf(), all_wf(h@), hoffs(h@, h@.len() as int) <= usize::MAX,
== fn ProblemMinlp::new!rejects
    requires a.wf(), hphi.wf(), j.wf(), all_wf(h@), hoffs(h@, h@.len() as int) <= usize::MAX,
    ensures dims_ok(a.shape.1 as int, a.shape.0 as int, j.shape.0 as int, hphi, b@.len() as int, h@, l@.len() as int, u@.len() as int, p@.len() as int), j.shape.1 == a.shape.1,
== fn ProblemMinlp::new
    ensures r.holds(a, b@, l@, u@, p@, opt_view(x0)), r.hphi == hphi, r.j == j, r.h@ == h@, r.eval_fn == eval_fn, r.wf(),
        r.phi.v@ == FV::R(0real), zeros(r.gphi@), zeros(r.f@),
== fn ProblemMinlp::new!hcomb
    requires dims_ok(a.shape.1 as int, a.shape.0 as int, j.shape.0 as int, hphi, b@.len() as int, h@, l@.len() as int, u@.len() as int, p@.len() as int), j.shape.1 == a.shape.1,
        a.wf(), hphi.wf(), j.wf(), all_wf(h@), hoffs(h@, h@.len() as int) <= usize::MAX,
    ensures r.hc_ok(), r.h@ == h@,
== fn ProblemMinlp::new | ProblemMinlp::new!hcomb
== loop 0
    invariant __s0@ == h@, __len0 == h@.len(), forall|i: int| 0 <= i < h@.len() ==> (#[trigger] h@[i]).shape.0 == nx && h@[i].shape.1 == nx,
== fn ProblemMinlp::new!rejects
== loop 0
    invariant __s0@ == h@, __len0 == h@.len(), forall|i: int| 0 <= i < __i0 ==> (#[trigger] h@[i]).shape.0 == nx && h@[i].shape.1 == nx,
== fn ProblemMinlp::new | ProblemMinlp::new!rejects | ProblemMinlp::new!hcomb
ret r
loops 4
== loop 1
    invariant all_wf(h@), __s1@ == h@, __len1 == h@.len(), __acc1 == hoffs(h@, __i1 as int), hoffs(h@, h@.len() as int) <= usize::MAX,
== at loop 1 begin
    proof { lem_hoffs_mono(h@, __i1 + 1, h@.len() as int); }
== fn ProblemMinlp::new!hcomb
== at loop 2 before
    assert(hcomb.data@.len() <= usize::MAX);
== loop 2
    invariant __s2@ == h@, __len2 == h@.len(), all_wf(h@), k == hoffs(h@, __i2 as int), hcomb.wf(), hcomb.data@.len() == hoffs(h@, h@.len() as int), hcomb.shape.0 == nx, hcomb.shape.1 == nx, hcomb.data@.len() <= usize::MAX,
        hpat(hcomb, h@, __i2 as int),
== at loop 2 begin
    let ghost gi = __i2 as int;
    proof { lem_hoffs_mono(h@, 0, gi); lem_hoffs_mono(h@, gi + 1, h@.len() as int); }
== loop 3 next
    invariant_except_break *hh == h@[gi], h@[gi].wf(), 0 <= gi < h@.len(), __n3.mat == hh, __n3.k <= hh.row_inds@.len(), k == hoffs(h@, gi) + __n3.k, hoffs(h@, gi) + hh.data@.len() <= hcomb.data@.len(), hoffs(h@, gi) >= 0,
        hcomb.wf(), hcomb.data@.len() == hoffs(h@, h@.len() as int), hcomb.shape.0 == nx, hcomb.shape.1 == nx, hcomb.data@.len() <= usize::MAX,
        hpat(hcomb, h@, gi), forall|q: int| 0 <= q < __n3.k ==> #[trigger] hpat_at(hcomb, h@, gi, q),
    ensures k == hoffs(h@, gi) + hh.data@.len(), *hh == h@[gi], hcomb.wf(), hcomb.data@.len() == hoffs(h@, h@.len() as int), hcomb.shape.0 == nx, hcomb.shape.1 == nx, hcomb.data@.len() <= usize::MAX,
        hpat(hcomb, h@, gi), forall|q: int| 0 <= q < hh.data@.len() ==> #[trigger] hpat_at(hcomb, h@, gi, q),
    decreases hh.row_inds@.len() - __n3.k,
== at loop 3 begin
    let ghost hc0 = hcomb;
    let ghost gk = __n3.k - 1;
== at loop 3 end
    proof {
        assert forall|i: int, q: int| 0 <= i < gi && 0 <= q < h@[i].data@.len() implies #[trigger] hpat_at(hcomb, h@, i, q) by {
            assert(hpat_at(hc0, h@, i, q)); lem_hoffs_mono(h@, i + 1, gi); lem_hoffs_mono(h@, 0, i);
        }
        assert forall|q: int| 0 <= q < gk + 1 implies #[trigger] hpat_at(hcomb, h@, gi, q) by { if q < gk { assert(hpat_at(hc0, h@, gi, q)); } }
    }
== fn ProblemMinlp::new | ProblemMinlp::new!rejects
== at loop 2 before
    assert(hcomb.data@.len() <= usize::MAX);
== loop 2
    invariant __s2@ == h@, __len2 == h@.len(), all_wf(h@), k == hoffs(h@, __i2 as int), hcomb.wf(), hcomb.data@.len() == hoffs(h@, h@.len() as int), hcomb.data@.len() <= usize::MAX,
== at loop 2 begin
    let ghost gi = __i2 as int;
    proof { lem_hoffs_mono(h@, 0, gi); lem_hoffs_mono(h@, gi + 1, h@.len() as int); }
== loop 3 next
    invariant_except_break *hh == h@[gi], h@[gi].wf(), 0 <= gi < h@.len(), __n3.mat == hh, __n3.k <= hh.row_inds@.len(), k == hoffs(h@, gi) + __n3.k, hoffs(h@, gi) + hh.data@.len() <= hcomb.data@.len(), hoffs(h@, gi) >= 0,
        hcomb.wf(), hcomb.data@.len() == hoffs(h@, h@.len() as int), hcomb.data@.len() <= usize::MAX,
    ensures k == hoffs(h@, gi) + hh.data@.len(), *hh == h@[gi], hcomb.wf(), hcomb.data@.len() == hoffs(h@, h@.len() as int), hcomb.data@.len() <= usize::MAX,
    decreases hh.row_inds@.len() - __n3.k,
== fn ProblemMinlp::evaluate
    requires ev_pre(old(self).eval_fn, old(self).state(), x@),
    ensures ev_rel(old(self).eval_fn, old(self).state(), x@, final(self).state()), final(self).same_data(old(self)),
== fn ProblemMinlp::evaluate!hcomb
    requires ev_pre(old(self).eval_fn, old(self).state(), x@),
    ensures final(self).hcomb == old(self).hcomb,
== fn ProblemMinlp::combine_h
loops 2
    requires old(self).hc_ok(), nu@.len() == old(self).f@.len(), old(self).f@.len() == old(self).h@.len(),
    ensures hcomb_of(final(self).hcomb, old(self).h@, nu@, nu@.len() as int), final(self).hc_ok(),
        final(self).hcomb.row_inds@ == old(self).hcomb.row_inds@, final(self).hcomb.col_inds@ == old(self).hcomb.col_inds@, final(self).hcomb.shape == old(self).hcomb.shape,
        final(self).hcomb.data@.len() == old(self).hcomb.data@.len(),
        final(self).state() == old(self).state(), final(self).h == old(self).h, final(self).x0 == old(self).x0, final(self).a == old(self).a, final(self).b == old(self).b,
        final(self).l == old(self).l, final(self).u == old(self).u, final(self).p == old(self).p, final(self).eval_fn == old(self).eval_fn,
== at begin
    let ghost gh = self.h@;
    assert(self.hcomb.data@.len() <= usize::MAX) by { assert(self.hcomb.data.len() == self.hcomb.data@.len()); }
    proof { lem_hoffs_mono(gh, 0, gh.len() as int); }
== at after let data
    let ghost gd = data@;
== loop 0
    invariant __s0@ == gh, __s0_1@ == nu@, __len0 == gh.len(), nu@.len() == gh.len(), all_wf(gh), k == hoffs(gh, __i0 as int), data@.len() == hoffs(gh, gh.len() as int), data@.len() <= usize::MAX,
        hprod(data@, gh, nu@, __i0 as int),
== at loop 0 begin
    let ghost gi = __i0 as int;
    proof { lem_hoffs_mono(gh, 0, gi); lem_hoffs_mono(gh, gi + 1, gh.len() as int); }
== loop 1
    invariant __s1@ == gh[gi].data@, __len1 == gh[gi].data@.len(), *nuval == nu@[gi], 0 <= gi < gh.len(), hoffs(gh, gi) >= 0, k == hoffs(gh, gi) + __i1, hoffs(gh, gi) + gh[gi].data@.len() <= data@.len(),
        data@.len() == hoffs(gh, gh.len() as int), data@.len() <= usize::MAX,
        hprod(data@, gh, nu@, gi), forall|q: int| 0 <= q < __i1 ==> #[trigger] hprod_at(data@, gh, nu@, gi, q),
== at loop 1 begin
    let ghost gd1 = data@;
== at loop 1 end
    proof {
        assert forall|i: int, q: int| 0 <= i < gi && 0 <= q < gh[i].data@.len() implies #[trigger] hprod_at(data@, gh, nu@, i, q) by {
            assert(hprod_at(gd1, gh, nu@, i, q)); lem_hoffs_mono(gh, i + 1, gi); lem_hoffs_mono(gh, 0, i);
        }
        assert forall|q: int| 0 <= q < __i1 + 1 implies #[trigger] hprod_at(data@, gh, nu@, gi, q) by { if q < __i1 { assert(hprod_at(gd1, gh, nu@, gi, q)); } }
    }
== at end
    proof {
        let hc = self.hcomb;
        assert forall|i: int, q: int| 0 <= i < nu@.len() && 0 <= q < gh[i].data@.len() implies #[trigger] hcomb_at(hc, gh, nu@, i, q) by { assert(hprod_at(data@, gh, nu@, i, q)); }
        assert forall|i: int, q: int| 0 <= i < gh.len() && 0 <= q < gh[i].data@.len() implies #[trigger] hpat_at(hc, gh, i, q) by { assert(hpat_at(old(self).hcomb, gh, i, q)); }
    }
== fn ProblemMinlp::x0
ret r
    ensures opt_slice(r) == opt_view(self.x0),
== fn ProblemMinlp::phi
ret r
    ensures r == self.phi,
== fn ProblemMinlp::gphi
ret r
    ensures r@ == self.gphi@,
== fn ProblemMinlp::hphi
ret r
    ensures *r == self.hphi,
== fn ProblemMinlp::a
ret r
    ensures *r == self.a,
== fn ProblemMinlp::b
ret r
    ensures r@ == self.b@,
== fn ProblemMinlp::f
ret r
    ensures r@ == self.f@,
== fn ProblemMinlp::j
ret r
    ensures *r == self.j,
== fn ProblemMinlp::h
ret r
    ensures r@ == self.h@,
== fn ProblemMinlp::hcomb
ret r
    ensures *r == self.hcomb,
== fn ProblemMinlp::l
ret r
    ensures r@ == self.l@,
== fn ProblemMinlp::u
ret r
    ensures r@ == self.u@,
== fn ProblemMinlp::p
ret r
    ensures r@ == self.p@,
== fn ProblemMinlp::nx
ret r
    ensures r == self.a.shape.1,
== fn ProblemMinlp::na
ret r
    ensures r == self.b@.len(),
== fn ProblemMinlp::nf
ret r
    ensures r == self.f@.len(),
// -------------------------------------------------------------- MILP
== fn ProblemMilp::new
ret r
    requires a.wf(), c@.len() == a.shape.1, b@.len() == a.shape.0, l@.len() == a.shape.1, u@.len() == a.shape.1, p@.len() == a.shape.1,
    ensures r.wf(), r.c@ == c@, r.base.holds(a, b@, l@, u@, p@, opt_view(x0)),
== fn ProblemMilp::new!rejects
ret r
    requires a.wf(),
    ensures b@.len() == a.shape.0, l@.len() == a.shape.1, u@.len() == a.shape.1, p@.len() == a.shape.1,
== fn ProblemMilp::new | ProblemMilp::new!rejects
== lift 0
cap c: Vec<F64>
pre s.gphi.len() == c@.len() && x.len() == c@.len()
post lin_post(c@, s, x, s2)
== fn ProblemMilp::new
== at after let cc
    proof { assert(cc@ =~= c@); }
== fn ProblemMilp::x0
ret r
    ensures opt_slice(r) == opt_view(self.base.x0),
== fn ProblemMilp::c
ret r
    ensures r@ == self.c@,
== fn ProblemMilp::a
ret r
    ensures *r == self.base.a,
== fn ProblemMilp::b
ret r
    ensures r@ == self.base.b@,
== fn ProblemMilp::l
ret r
    ensures r@ == self.base.l@,
== fn ProblemMilp::u
ret r
    ensures r@ == self.base.u@,
== fn ProblemMilp::p
ret r
    ensures r@ == self.base.p@,
== fn ProblemMilp::nx
ret r
    ensures r == self.c@.len(),
== fn ProblemMilp::na
ret r
    ensures r == self.base.b@.len(),
== fn ProblemMilp::as_mut_minlp
ret r
    ensures *r == old(self).base, final(self).base == *final(r), final(self).c == old(self).c,
// -------------------------------------------------------------- NLP
== fn ProblemNlp::new
ret r
    requires dims_ok(a.shape.1 as int, a.shape.0 as int, j.shape.0 as int, hphi, b@.len() as int, h@, l@.len() as int, u@.len() as int, a.shape.1 as int), j.shape.1 == a.shape.1,
        a.wf(), hphi.wf(), j.wf(), all_wf(h@), hoffs(h@, h@.len() as int) <= usize::MAX,
    ensures r.wf(), r.base.holds(a, b@, l@, u@, r.base.p@, opt_view(x0)), r.base.hphi == hphi, r.base.j == j, r.base.h@ == h@, r.base.eval_fn == eval_fn,
        r.base.phi.v@ == FV::R(0real), zeros(r.base.gphi@), zeros(r.base.f@),
== fn ProblemNlp::new!rejects
ret r
    requires a.wf(), hphi.wf(), j.wf(), all_wf(h@), hoffs(h@, h@.len() as int) <= usize::MAX,
    ensures dims_ok(a.shape.1 as int, a.shape.0 as int, j.shape.0 as int, hphi, b@.len() as int, h@, l@.len() as int, u@.len() as int, a.shape.1 as int), j.shape.1 == a.shape.1,
== fn ProblemNlp::new!hcomb
ret r
    requires dims_ok(a.shape.1 as int, a.shape.0 as int, j.shape.0 as int, hphi, b@.len() as int, h@, l@.len() as int, u@.len() as int, a.shape.1 as int), j.shape.1 == a.shape.1,
        a.wf(), hphi.wf(), j.wf(), all_wf(h@), hoffs(h@, h@.len() as int) <= usize::MAX,
    ensures r.base.hc_ok(), r.base.h@ == h@,
== fn ProblemNlp::x0
ret r
    ensures opt_slice(r) == opt_view(self.base.x0),
== fn ProblemNlp::phi
ret r
    ensures r == self.base.phi,
== fn ProblemNlp::gphi
ret r
    ensures r@ == self.base.gphi@,
== fn ProblemNlp::hphi
ret r
    ensures *r == self.base.hphi,
== fn ProblemNlp::a
ret r
    ensures *r == self.base.a,
== fn ProblemNlp::b
ret r
    ensures r@ == self.base.b@,
== fn ProblemNlp::f
ret r
    ensures r@ == self.base.f@,
== fn ProblemNlp::j
ret r
    ensures *r == self.base.j,
== fn ProblemNlp::h
ret r
    ensures r@ == self.base.h@,
== fn ProblemNlp::hcomb
ret r
    ensures *r == self.base.hcomb,
== fn ProblemNlp::l
ret r
    ensures r@ == self.base.l@,
== fn ProblemNlp::u
ret r
    ensures r@ == self.base.u@,
== fn ProblemNlp::nx
ret r
    ensures r == self.base.a.shape.1,
== fn ProblemNlp::na
ret r
    ensures r == self.base.b@.len(),
== fn ProblemNlp::nf
ret r
    ensures r == self.base.f@.len(),
== fn ProblemNlp::evaluate
    requires ev_pre(old(self).base.eval_fn, old(self).base.state(), x@),
    ensures ev_rel(old(self).base.eval_fn, old(self).base.state(), x@, final(self).base.state()), final(self).base.same_data(&old(self).base),
== fn ProblemNlp::combine_h
    requires old(self).base.hc_ok(), nu@.len() == old(self).base.f@.len(), old(self).base.f@.len() == old(self).base.h@.len(),
    ensures hcomb_of(final(self).base.hcomb, old(self).base.h@, nu@, nu@.len() as int), final(self).base.hc_ok(),
        final(self).base.hcomb.row_inds@ == old(self).base.hcomb.row_inds@, final(self).base.hcomb.col_inds@ == old(self).base.hcomb.col_inds@, final(self).base.hcomb.shape == old(self).base.hcomb.shape,
        final(self).base.hcomb.data@.len() == old(self).base.hcomb.data@.len(),
        final(self).base.state() == old(self).base.state(), final(self).base.x0 == old(self).base.x0, final(self).base.a == old(self).base.a, final(self).base.b == old(self).base.b,
        final(self).base.l == old(self).base.l, final(self).base.u == old(self).base.u, final(self).base.p == old(self).base.p, final(self).base.eval_fn == old(self).base.eval_fn,
== fn ProblemNlp::as_mut_minlp
ret r
    ensures *r == old(self).base, final(self).base == *final(r),
// -------------------------------------------------------------- LP
== fn ProblemLp::new
ret r
    requires a.wf(), c@.len() == a.shape.1, b@.len() == a.shape.0, l@.len() == a.shape.1, u@.len() == a.shape.1,
    ensures r.wf(), r.base_milp.c@ == c@, r.base_milp.base.holds(a, b@, l@, u@, r.base_milp.base.p@, opt_view(x0)),
== fn ProblemLp::new!rejects
ret r
    requires a.wf(),
    ensures b@.len() == a.shape.0, l@.len() == a.shape.1, u@.len() == a.shape.1, c@.len() == a.shape.1,
== fn ProblemLp::new | ProblemLp::new!rejects
== lift 0
cap c: Vec<F64>
pre s.gphi.len() == c@.len() && x.len() == c@.len()
post lin_post(c@, s, x, s2)
== fn ProblemLp::new
== at pretail
    proof { let (m, n) = (base_milp.base, base_nlp.base);
        assert(n.b@ =~= m.b@); assert(n.l@ =~= m.l@); assert(n.u@ =~= m.u@); assert(n.p@ =~= m.p@); assert(base_milp.c@ =~= c@);
        assert(opt_view(n.x0) == opt_view(x0)); assert(opt_view(m.x0) == opt_view(x0)); }
== fn ProblemLp::x0
ret r
    ensures opt_slice(r) == opt_view(self.base_milp.base.x0),
== fn ProblemLp::c
ret r
    ensures r@ == self.base_milp.c@,
== fn ProblemLp::a
ret r
    ensures *r == self.base_milp.base.a,
== fn ProblemLp::b
ret r
    ensures r@ == self.base_milp.base.b@,
== fn ProblemLp::l
ret r
    ensures r@ == self.base_milp.base.l@,
== fn ProblemLp::u
ret r
    ensures r@ == self.base_milp.base.u@,
== fn ProblemLp::nx
ret r
    ensures r == self.base_milp.c@.len(),
== fn ProblemLp::na
ret r
    ensures r == self.base_milp.base.b@.len(),
== fn ProblemLp::as_mut_milp
ret r
    ensures *r == old(self).base_milp, final(self).base_milp == *final(r), final(self).base_nlp == old(self).base_nlp,
== fn ProblemLp::as_mut_minlp
ret r
    ensures *r == old(self).base_milp.base, final(self).base_milp.base == *final(r), final(self).base_milp.c == old(self).base_milp.c, final(self).base_nlp == old(self).base_nlp,
== fn ProblemLp::as_mut_nlp
ret r
    ensures *r == old(self).base_nlp, final(self).base_nlp == *final(r), final(self).base_milp == old(self).base_milp,
