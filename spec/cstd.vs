// ================================================================ constraints in standard form
== fn Constraint::std_components
ret r
    requires *old(arow) < usize::MAX, *old(jrow) < usize::MAX,
    ensures cstd_ok(*self, *old(arow) as int, *old(jrow) as int, *final(arow) as int, *final(jrow) as int, r),
== at begin
    broadcast use hashing;
== loop 0 items
    invariant __len0 == __s0@.len(), items_of(__s0@, prop.a@), a@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] a@[i]).0 == *arow && a@[i].1 == *__s0@[i].0 && a@[i].2 == *__s0@[i].1,
== at loop 0 after
    proof { lem_row_items(__s0@, prop.a@, *arow as int, a@); }
== loop 1 items
    invariant __len1 == __s1@.len(), items_of(__s1@, prop.a@), a@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> (#[trigger] a@[i]).0 == *arow && a@[i].1 == *__s1@[i].0 && a@[i].2 == *__s1@[i].1,
== at loop 1 after
    proof { lem_row_items(__s1@, prop.a@, *arow as int, a@); }
== at after let prop
    let ghost gp = prop.a@;
    let ghost gb = prop.b;
    let ghost gr = *arow as int;
    let ghost gj = *jrow as int;
    let ghost gphi = comp.gphi@;
== loop 2
    invariant __s2@ == comp.hphi@, __len2 == __s2@.len(), hh@ == __s2@.take(__i2 as int),
== at loop 2 end
    proof { assert(hh@ =~= __s2@.take(__i2 + 1)); }
== at loop 2 after
    proof { assert(hh@ =~= comp.hphi@); }
== loop 3
    invariant __s3@ == comp.gphi@, __len3 == __s3@.len(), jpart(j@, *jrow as int, comp.gphi@, __i3 as int),
== loop 4
    invariant __s4@ == comp.gphi@, __len4 == __s4@.len(), jpart(j@, *jrow as int, comp.gphi@, __i4 as int),
== at loop 4 after
    let ghost gj4 = j@;
== at pretail
    proof {
        let c = *self;
        assert(exp_of(exp, c));
        let s = bounded(u@, l@);
        if ca@.len() > 0 {
            if c_kind(c) == ConstraintKind::Equal { lem_std_lin_eq(c, exp, gp, gb, a@, b@[0], gr); }
            else { lem_std_lin_sl(c, exp, gp, gb, a@.drop_last(), a@, b@[0], gr, s); }
        } else if cj@.len() > 0 {
            if c_kind(c) == ConstraintKind::Equal { assert(std_jac(exp, j@, h@[0]@, gj, gphi)); }
            else { lem_std_nl_sl(c, exp, f@[0], j@, h@[0]@, gj, s, gphi); }
        } else {
            assert forall|k: Node| #[trigger] gp.contains_key(k) implies k == s by { lem_one_key(gp, s, k); }
            if u@.len() > 0 { lem_std_bound(c, exp, gp, gb, s, u@[0]); } else { lem_std_bound(c, exp, gp, gb, s, l@[0]); }
        }
    }
== fn ConstraintStdComp::new
ret r
    ensures r.ca@.len() == 0, r.cj@.len() == 0, r.a@.len() == 0, r.b@.len() == 0, r.f@.len() == 0, r.j@.len() == 0, r.h@.len() == 0, r.u@.len() == 0, r.l@.len() == 0, r.prop@.len() == 0,
