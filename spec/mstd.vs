== config method partial_cmp rt_str_partial_cmp
== config flatten AddAssign
== fn ConstraintStdComp::add_assign
    ensures cs(*final(self)) == cat(cs(*old(self)), cs(other)),
== at end
    assert(cs(*self) =~~= cat(cs(*old(self)), cs(other)));
== fn Model::objective
ret r
    ensures *r == self.objective,
== fn Model::constraints
ret r
    ensures r@ == self.constraints@,
== fn Model::init_primals
ret r
    ensures forall|k: Node| #[trigger] self.init_primals@.contains_key(k) <==> r@.contains_key(&k), forall|k: Node| #[trigger] r@.contains_key(&k) ==> r@[&k] == self.init_primals@[k],
== at begin
    broadcast use hashing;
== loop 0 items hashmap HashMap<&Node, F64>
    invariant __len0 == __s0@.len(), items_of(__s0@, self.init_primals@),
        forall|k: Node| #[trigger] __acc0@.contains_key(&k) <==> exists|i: int| 0 <= i < __i0 && *(#[trigger] __s0@[i]).0 == k,
        forall|i: int| 0 <= i < __i0 ==> __acc0@.contains_key((#[trigger] __s0@[i]).0) && __acc0@[__s0@[i].0] == *__s0@[i].1,
== fn Model::std_components
ret r
    ensures mstd_ok(*self, r),
== at after let constr
    let ghost mut gp: Seq<ConstraintStdComp> = seq![];
== at loop 0 before
    proof { assert(catn(gp, 0) == cs0()); lem_cs_empty(constr); assert(parts_ok(self.constraints@.take(0), gp)); assert(cs_inv(cs0())) by { assert(all_aff(cs0().prop)); } }
== loop 0
    invariant __s0@ == self.constraints@, __len0 == __s0@.len(), gp.len() == __i0, parts_ok(self.constraints@.take(__i0 as int), gp), cs(constr) == catn(gp, __i0 as int), cs_inv(cs(constr)),
        arow == catn(gp, __i0 as int).b.len(), jrow == catn(gp, __i0 as int).f.len(), arow <= __i0, jrow <= __i0,
== at loop 0 begin
    let ghost gc = constr;
    let ghost ga = arow as int; let ghost gj = jrow as int;
== at loop 0 end
    proof {
        let k = __i0 as int;
        let r = choose|r: ConstraintStdComp| #[trigger] cstd_ok(self.constraints@[k], ga, gj, arow as int, jrow as int, r) && cs(constr) == cat(cs(gc), cs(r));
        lem_parts_push(self.constraints@, k, gp, r, arow as int, jrow as int);
        gp = gp.push(r);
    }
== at pretail
    proof { let n = self.constraints@.len() as int; assert(self.constraints@.take(n) =~= self.constraints@); let e = choose|e: Node| obj_expr(self.objective, e) && #[trigger] comp_ok(e, obj); assert(mstd_of(*self, ModelStdComp { obj: obj, constr: constr }, e, gp)); }
== fn Model::std_problem
ret r
    ensures std_prob_ok(*self, r),
== lift 1
opaque
== fn Model::std_problem!eval
ret r
    ensures seval_ok(*self, r),
== lift 1
cap var2index_eval: HashMap<Node, usize>
cap phi_data: Node
cap gphi_indices: Vec<usize>
cap gphi_data: Vec<Node>
cap hphi_data: Vec<Node>
cap f_data: Vec<Node>
cap j_data: Vec<Node>
cap h_data: Vec<Vec<Node>>
pre cap_pre(var2index_eval@, gphi_indices@, gphi_data@, hphi_data@, f_data@, j_data@, h_data@, s, x)
post cap_post(var2index_eval@, phi_data, gphi_indices@, gphi_data@, hphi_data@, f_data@, j_data@, h_data@, s, x, s2)
== fn Model::std_problem!eval
== at lift 1 begin
    let ghost ge = env(var2index_eval@, x@);
    let ghost (g0, p0, f0, j0, h0) = (gphi@, *hphi, f@, *j, h@);
== loop 19 items
    invariant __len19 == __s19@.len(), items_of(__s19@, var2index_eval@), in_range(var2index_eval@, x@.len() as int),
        forall|k: Node| #[trigger] var_values@.contains_key(&k) <==> seen(__s19@, __i19 as int, k), forall|k: Node| #[trigger] var_values@.contains_key(&k) ==> var_values@[&k] == x@[var2index_eval@[k] as int],
== at loop 19 end
    proof { let w = *__s19@[__i19 as int].0; assert forall|k: Node| #[trigger] var_values@.contains_key(&k) <==> seen(__s19@, __i19 + 1, k) by {
        if k == w { assert(seen(__s19@, __i19 + 1, k)); } else { assert(seen(__s19@, __i19 + 1, k) == seen(__s19@, __i19 as int, k)); } } }
== at loop 19 after
    proof { assert(env_of(var_values@) =~= ge); }
== loop 20
    invariant __s20@ == gphi_indices@, __s20_1@ == gphi_data@, __len20 == gphi_indices@.len(), gphi_data@.len() == gphi_indices@.len(), env_of(var_values@) == ge, distinct(gphi_indices@, g0.len() as int), scat(gphi_indices@, gphi_data@, ge, g0, gphi@, __i20 as int),
== at loop 20 begin
    let ghost gg = gphi@;
== at loop 20 end
    proof { lem_scat(gphi_indices@, gphi_data@, ge, g0, gg, __i20 as int, gphi@); }
== loop 21
    invariant __s21_1@ == hphi_data@, __len21 == hphi_data@.len(), hphi_dest@.len() == hphi_data@.len(), env_of(var_values@) == ge, evs(hphi_data@, ge, hphi_dest@, __i21 as int),
== loop 22
    invariant __s22_1@ == f_data@, __len22 == f_data@.len(), f@.len() == f_data@.len(), env_of(var_values@) == ge, evs(f_data@, ge, f@, __i22 as int),
== loop 23
    invariant __s23_1@ == j_data@, __len23 == j_data@.len(), j_dest@.len() == j_data@.len(), env_of(var_values@) == ge, evs(j_data@, ge, j_dest@, __i23 as int),
== loop 24
    invariant __s24_1@ == h_data@, __len24 == h_data@.len(), hlens(h0, h_data@), same_pats(h0, h@), env_of(var_values@) == ge, hvals(h@, h_data@, ge, __i24 as int),
== at loop 24 begin
    proof { assert(h0[__i24 as int].data@.len() == h_data@[__i24 as int]@.len()); }
== loop 25
    invariant __s25_1@ == hh_data@, __len25 == hh_data@.len(), hh_dest@.len() == hh_data@.len(), env_of(var_values@) == ge, evs(hh_data@, ge, hh_dest@, __i25 as int),
== fn Model::std_problem | Model::std_problem!eval
== closure 0
|$0: &Node, $1: &Node| -> (o: core::cmp::Ordering)
== at begin
    broadcast use hashing, km_usize;
== at after let comp
    let ghost gc = comp;
    let ghost gcs = cs(comp.constr);
    proof { let e = choose|e: Node| #[trigger] comp_ok(e, comp.obj); lem_obj_inv(e, comp.obj); }
== loop 0 items hashset HashSet<Node>
    invariant __len0 == __s0@.len(), elems_of(__s0@, comp.obj.prop.a@.dom()), forall|k: Node| #[trigger] __acc0@.contains(k) <==> exists|i: int| 0 <= i < __i0 && *(#[trigger] __s0@[i]) == k,
== loop 1
    invariant __s1@ == gcs.prop, __len1 == __s1@.len(), forall|k: Node| #[trigger] varset@.contains(k) <==> gc.obj.prop.a@.contains_key(k) || cov(gcs.prop.take(__i1 as int), k),
== at loop 1 begin
    let ghost gset = varset@;
== at loop 1 end
    proof { lem_cov_take(gcs.prop, __i1 as int); assert(*p == gcs.prop[__i1 as int]); assert forall|k: Node| #[trigger] varset@.contains(k) <==> gset.contains(k) || p.a@.contains_key(k) by { assert(varset.rt_sset().contains(k) == varset@.contains(k)); } }
== at loop 1 after
    proof { assert(gcs.prop.take(gcs.prop.len() as int) =~= gcs.prop); }
== loop 2 items vec Vec<Node>
    invariant __len2 == __s2@.len(), elems_of(__s2@, p.a@.dom()), __acc2@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> #[trigger] __acc2@[i] == *__s2@[i],
== at loop 2 after
    proof { assert forall|k: Node| #[trigger] __acc2@.contains(k) <==> p.a@.contains_key(k) by {
        if __acc2@.contains(k) { let i = choose|i: int| 0 <= i < __acc2@.len() && __acc2@[i] == k; assert(p.a@.dom().contains(*__s2@[i])); }
        if p.a@.dom().contains(k) { let i = choose|i: int| 0 <= i < __s2@.len() && *(#[trigger] __s2@[i]) == k; assert(__acc2@[i] == k); } } }
== loop 3 items vec Vec<Node>
    invariant __len3 == __s3@.len(), __acc3@ =~= __s3@.take(__i3 as int),
== at loop 3 after
    proof { assert(__acc3@ =~= __s3@); }
== at loop 4 before
    let ghost gvars = vars@;
== loop 4 hashmap HashMap<Node, usize>
    invariant __len4 == __s4@.len(), __s4@.no_duplicates(), forall|k: Node| #[trigger] __acc4@.contains_key(k) <==> exists|i: int| 0 <= i < __i4 && #[trigger] __s4@[i] == k, forall|i: int| 0 <= i < __i4 ==> __acc4@[#[trigger] __s4@[i]] == i,
== at loop 4 after
    proof { lem_number(__s4@, __acc4@); }
== at after let var2index
    let ghost mp = var2index@;
    let ghost gn = num_vars as int;
    proof { assert(vix(mp, gn, gc.obj.prop.a@, gcs.prop)); assert(mp.len() == gn); }
== loop 5 items hashmap HashMap<Node, usize>
    invariant __len5 == __s5@.len(), items_of(__s5@, mp), forall|k: Node| #[trigger] __acc5@.contains_key(k) <==> seen(__s5@, __i5 as int, k), forall|k: Node| #[trigger] __acc5@.contains_key(k) ==> __acc5@[k] == mp[k],
== loop 6
    invariant __s6@ == gc.obj.gphi@, __len6 == __s6@.len(), obj_inv(gc.obj), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, gcaps(mp, gphi_indices@, gphi_data@, gc.obj.gphi@, __i6 as int),
== loop 7
    invariant __s7@ == gc.obj.hphi@, __len7 == __s7@.len(), obj_inv(gc.obj), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, htrips(mp, hphi_row@, hphi_col@, hphi_data@, gc.obj.hphi@, __i7 as int),
== at loop 7 begin
    let ghost (r0, k0, d0) = (hphi_row@, hphi_col@, hphi_data@);
== at loop 7 end
    proof { let q = __i7 as int; lem_htrips(mp, r0, k0, d0, gc.obj.hphi@, q, hphi_row@[q], hphi_col@[q], hphi_data@[q]); }
== loop 8 items
    invariant __len8 == __s8@.len(), items_of(__s8@, gc.obj.prop.a@), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, c_data@.len() == gn, part_c(mp, c_data@, gc.obj.prop.a@, __s8@, __i8 as int),
== at loop 8 begin
    let ghost c0 = c_data@;
== at loop 8 end
    proof { assert(*__s8@[__i8 as int].0 == *var); assert forall|v: Node| #[trigger] mp.contains_key(v) implies c_data@[mp[v] as int].v@ == (if seen(__s8@, __i8 + 1, v) { gc.obj.prop.a@[v].v@ } else { FV::R(0real) }) by {
        if v == *var { assert(seen(__s8@, __i8 + 1, v)); } else { assert(mp[v] != mp[*var]); assert(seen(__s8@, __i8 + 1, v) == seen(__s8@, __i8 as int, v)); } } }
== loop 9 hashmap HashMap<usize, Constraint>
    invariant __s9@ == gcs.ca, __len9 == __s9@.len(), map_of(__acc9@, gcs.ca, __i9 as int),
== loop 10
    invariant __s10@ == gcs.a, __len10 == __s10@.len(), cs_inv(gcs), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, trips(mp, a_row@, a_col@, a_data@, gcs.a, __i10 as int),
== at loop 10 begin
    let ghost (r0, k0, d0) = (a_row@, a_col@, a_data@);
== at loop 10 end
    proof { let q = __i10 as int; lem_trips(mp, r0, k0, d0, gcs.a, q, a_row@[q], a_col@[q], a_data@[q]); }
== loop 11 hashmap HashMap<usize, Constraint>
    invariant __s11@ == gcs.cj, __len11 == __s11@.len(), map_of(__acc11@, gcs.cj, __i11 as int),
== loop 12
    invariant __s12@ == gcs.j, __len12 == __s12@.len(), cs_inv(gcs), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, jtrips(mp, j_row@, j_col@, j_data@, gcs.j, __i12 as int),
== at loop 12 begin
    let ghost (r0, k0, d0) = (j_row@, j_col@, j_data@);
== at loop 12 end
    proof { let q = __i12 as int; lem_jtrips(mp, r0, k0, d0, gcs.j, q, j_row@[q], j_col@[q], j_data@[q]); }
== loop 13
    invariant __s13@ == gcs.h, __len13 == __s13@.len(), cs_inv(gcs), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, num_vars == gn, h_vec@.len() == __i13, h_data@.len() == __i13,
        forall|k: int| 0 <= k < __i13 ==> hmat_at(mp, gn, #[trigger] h_vec@[k], h_data@[k]@, gcs.h[k]@),
== at loop 13 begin
    let ghost gk = __i13 as int;
== loop 14
    invariant 0 <= gk < gcs.h.len(), hh == gcs.h[gk], __s14@ == gcs.h[gk]@, __len14 == __s14@.len(), cs_inv(gcs), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, htrips(mp, hh_row@, hh_col@, hh_data@, gcs.h[gk]@, __i14 as int),
== at loop 14 begin
    proof { assert(hcov(gcs.prop, gcs.h[gk]@)); }
    let ghost (r0, k0, d0) = (hh_row@, hh_col@, hh_data@);
== at loop 14 end
    proof { let q = __i14 as int; lem_htrips(mp, r0, k0, d0, gcs.h[gk]@, q, hh_row@[q], hh_col@[q], hh_data@[q]); }
== at loop 13 after
    rt_memory(&h_vec);
== loop 15
    invariant __s15@ == gcs.u, __len15 == __s15@.len(), cs_inv(gcs), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, u_data@.len() == gn, ubs(mp, u_data@, uindex2constr@, gcs.u, __i15 as int),
== at loop 15 begin
    let ghost u0 = u_data@; let ghost ui0 = uindex2constr@;
== at loop 15 end
    proof { lem_ub_step(mp, gn, u0, ui0, gcs.u, __i15 as int, u_data@, uindex2constr@); }
== loop 16
    invariant __s16@ == gcs.l, __len16 == __s16@.len(), cs_inv(gcs), vix(mp, gn, gc.obj.prop.a@, gcs.prop), var2index@ == mp, l_data@.len() == gn, lbs(mp, l_data@, lindex2constr@, gcs.l, __i16 as int),
== at loop 16 begin
    let ghost l0 = l_data@; let ghost li0 = lindex2constr@;
== at loop 16 end
    proof { lem_lb_step(mp, gn, l0, li0, gcs.l, __i16 as int, l_data@, lindex2constr@); }
== loop 17 items
    invariant __len17 == __s17@.len(), items_of(__s17@, mp), numbered(mp, gn), p_data@.len() == gn, part_ints(mp, p_data@, __s17@, __i17 as int), num_int <= __i17, num_int > 0 <==> seen_int(__s17@, __i17 as int),
== at loop 17 begin
    let ghost p0 = p_data@;
== at loop 17 end
    proof { assert(*__s17@[__i17 as int].0 == *var); assert forall|v: Node| #[trigger] mp.contains_key(v) implies p_data@[mp[v] as int] == (seen(__s17@, __i17 + 1, v) && is_int(v)) by {
        if v == *var { assert(seen(__s17@, __i17 + 1, v)); } else { assert(mp[v] != mp[*var]); assert(seen(__s17@, __i17 + 1, v) == seen(__s17@, __i17 as int, v)); } } }
== loop 18 items
    invariant __len18 == __s18@.len(), items_of(__s18@, __bs18@), var2index@ == mp, numbered(mp, gn), x0_data@.len() == gn, part_x(mp, x0_data@, self.init_primals@, __s18@, __i18 as int),
        forall|k: Node| #[trigger] self.init_primals@.contains_key(k) <==> __bs18@.contains_key(&k), forall|k: Node| #[trigger] __bs18@.contains_key(&k) ==> __bs18@[&k] == self.init_primals@[k],
== at loop 18 begin
    let ghost x00 = x0_data@;
== at loop 18 end
    proof { let w = **__s18@[__i18 as int].0; assert(w == **var); assert(__bs18@.contains_key(&w)); assert(*val == self.init_primals@[w]);
        assert forall|v: Node| #[trigger] mp.contains_key(v) implies x0_data@[mp[v] as int].v@ == (if seen2(__s18@, __i18 + 1, v) { self.init_primals@[v].v@ } else { FV::R(0real) }) by {
        if v == w { assert(seen2(__s18@, __i18 + 1, v)); } else { if mp.contains_key(w) { assert(mp[v] != mp[w]); } assert(seen2(__s18@, __i18 + 1, v) == seen2(__s18@, __i18 as int, v)); } } }
== at loop 18 after
    let ghost gx0 = x0_data@;
    proof { assert(init_x(mp, gx0, self.init_primals@)); }
== fn Model::std_problem!eval
== at after let eval_fn
    proof {
        assert(var2index_eval@ =~= mp) by { assert forall|k: Node| #[trigger] mp.contains_key(k) <==> var2index_eval@.contains_key(k) by {} }
        assert(caps(gc, mp, gphi_indices@, gphi_data@, hphi_data@, f_data@, j_data@, h_data@)) by { lem_caps(gc, mp, gn, hphi_mat, hphi_data@, j_mat, j_data@, h_vec@, h_data@); }
        lem_eval_fn(eval_fn, gc, mp, gn, gphi_indices@, gphi_data@, hphi_data@, f_data@, j_data@, h_data@);
    }
== at pretail
    proof { if problem is Nlp || problem is Minlp { lem_shaped0(gc, mp, gn, pbase(problem).state(), hphi_data@, j_data@, h_data@); } assert(var2index@ == mp); }
== fn Model::std_problem
== at pretail
    proof { assert(var2index@ == mp); }
== fn Objective::minimize
ret r
    ensures r == Objective::Minimize(*f),
== fn Objective::maximize
ret r
    ensures r == Objective::Maximize(*f),
== fn Objective::empty
ret r
    ensures r is Empty,
== fn Model::new
ret r
    ensures r.objective is Empty, r.constraints@.len() == 0, r.init_primals@.dom() == Set::<Node>::empty(), no_result(r),
== at begin
    broadcast use hashing, vstd::map::group_map_lemmas;
== fn Model::set_objective
    ensures final(self).objective == obj, *final(self) == (Model { objective: obj, ..*old(self) }),
== fn Model::add_constraint
    ensures final(self).constraints@ == old(self).constraints@.push(*c), *final(self) == (Model { constraints: final(self).constraints, ..*old(self) }),
== fn Model::add_constraints
    ensures final(self).constraints@ == old(self).constraints@ + c@.map_values(|x: &Constraint| *x), *final(self) == (Model { constraints: final(self).constraints, ..*old(self) }),
== loop 0 vec Vec<Constraint>
    invariant __len0 == __s0@.len(), __s0@ == c@, __acc0@ =~= c@.take(__i0 as int).map_values(|x: &Constraint| *x),
== fn Model::set_init_primals
    ensures forall|k: Node| #[trigger] final(self).init_primals@.contains_key(k) <==> values@.contains_key(&k), forall|k: Node| #[trigger] final(self).init_primals@.contains_key(k) ==> final(self).init_primals@[k] == values@[&k],
        *final(self) == (Model { init_primals: final(self).init_primals, ..*old(self) }),
== at begin
    broadcast use hashing, vstd::map::group_map_lemmas;
== loop 0 items
    invariant __len0 == __s0@.len(), items_of(__s0@, values@), *self == (Model { init_primals: self.init_primals, ..*old(self) }),
        forall|k: Node| #[trigger] self.init_primals@.contains_key(k) <==> seen2(__s0@, __i0 as int, k), forall|k: Node| #[trigger] self.init_primals@.contains_key(k) ==> self.init_primals@[k] == values@[&k],
== at loop 0 end
    proof { let w = **__s0@[__i0 as int].0; assert forall|k: Node| #[trigger] self.init_primals@.contains_key(k) <==> seen2(__s0@, __i0 + 1, k) by {
        if k == w { assert(seen2(__s0@, __i0 + 1, k)); } else { assert(seen2(__s0@, __i0 + 1, k) == seen2(__s0@, __i0 as int, k)); } } }
== at loop 0 after
    proof { assert forall|k: Node| #[trigger] values@.contains_key(&k) <==> seen2(__s0@, __s0@.len() as int, k) by { if values@.contains_key(&k) { let i = choose|i: int| 0 <= i < __s0@.len() && *(#[trigger] __s0@[i]).0 == &k; } } }
== fn Model::solver_status
ret r
    ensures match r { Some(x) => self.solver_status == Some(*x), None => self.solver_status is None },
== fn Model::final_primals
ret r
    ensures forall|k: Node| #[trigger] self.final_primals@.contains_key(k) <==> r@.contains_key(&k), forall|k: Node| #[trigger] r@.contains_key(&k) ==> r@[&k] == self.final_primals@[k],
== at begin
    broadcast use hashing;
== loop 0 items hashmap HashMap<&Node, F64>
    invariant __len0 == __s0@.len(), items_of(__s0@, self.final_primals@),
        forall|k: Node| #[trigger] __acc0@.contains_key(&k) <==> exists|i: int| 0 <= i < __i0 && *(#[trigger] __s0@[i]).0 == k,
        forall|i: int| 0 <= i < __i0 ==> __acc0@.contains_key((#[trigger] __s0@[i]).0) && __acc0@[__s0@[i].0] == *__s0@[i].1,
== fn Model::final_duals
ret r
    ensures forall|k: Constraint| #[trigger] self.final_duals@.contains_key(k) <==> r@.contains_key(&k), forall|k: Constraint| #[trigger] r@.contains_key(&k) ==> r@[&k] == self.final_duals@[k],
== at begin
    broadcast use hashing, km_refcons;
== loop 0 items hashmap HashMap<&Constraint, F64>
    invariant __len0 == __s0@.len(), items_of(__s0@, self.final_duals@),
        forall|k: Constraint| #[trigger] __acc0@.contains_key(&k) <==> exists|i: int| 0 <= i < __i0 && *(#[trigger] __s0@[i]).0 == k,
        forall|i: int| 0 <= i < __i0 ==> __acc0@.contains_key((#[trigger] __s0@[i]).0) && __acc0@[__s0@[i].0] == *__s0@[i].1,
== fn Model::solve
ret r
    ensures same_model(*old(self), *final(self)), r is Err ==> no_result(*final(self)),
        r is Ok ==> exists|sp: ModelStdProb, p2: Problem, rr: Result<(SolverStatus, ProblemSol), SimpleError>| #[trigger] solve_ok(*final(self), solver, *final(self), sp, p2, rr),
== at begin
    broadcast use hashing, km_usize, km_cons, vstd::map::group_map_lemmas;
== at after let std_prob
    let ghost gsp = std_prob; let ghost gm = *self;
== at loop 0 before
    let ghost m0 = *self;
    proof { let comp = choose|comp: ModelStdComp| #[trigger] mstd_ok(*self, comp) && sprob_ok(*self, comp, gsp); }
== loop 0 items
    invariant __len0 == __s0@.len(), items_of(__s0@, std_prob.var2index@), *self == (Model { final_primals: self.final_primals, ..m0 }),
        forall|v: Node| #[trigger] std_prob.var2index@.contains_key(v) ==> std_prob.var2index@[v] < solution.x@.len(),
        forall|k: Node| #[trigger] self.final_primals@.contains_key(k) <==> seen(__s0@, __i0 as int, k), forall|k: Node| #[trigger] self.final_primals@.contains_key(k) ==> self.final_primals@[k] == solution.x@[std_prob.var2index@[k] as int],
== at loop 0 end
    proof { let w = *__s0@[__i0 as int].0; assert forall|k: Node| #[trigger] self.final_primals@.contains_key(k) <==> seen(__s0@, __i0 + 1, k) by {
        if k == w { assert(seen(__s0@, __i0 + 1, k)); } else { assert(seen(__s0@, __i0 + 1, k) == seen(__s0@, __i0 as int, k)); } } }
== at loop 0 after
    proof { assert(self.final_primals@.dom() =~= std_prob.var2index@.dom()); assert(primals_ok(std_prob.var2index@, solution.x@, self.final_primals@)); }
== at loop 1 before
    let ghost d0 = self.final_duals@; let ghost m0 = *self;
== loop 1 items
    invariant __len1 == __s1@.len(), items_of(__s1@, std_prob.aindex2constr@), *self == (Model { final_duals: self.final_duals, ..m0 }), entered(d0, __s1@, __i1 as int, solution.lam@, self.final_duals@),
        forall|i: usize| #[trigger] std_prob.aindex2constr@.contains_key(i) ==> i < solution.lam@.len(),
== at loop 1 begin
    let ghost dd = self.final_duals@;
== at loop 1 end
    proof { assert(std_prob.aindex2constr@.contains_key(*__s1@[__i1 as int].0)); lem_enter(d0, __s1@, __i1 as int, solution.lam@, dd); }
== at loop 1 after
    proof { lem_entered(d0, __s1@, solution.lam@, self.final_duals@, std_prob.aindex2constr@); }
== at loop 2 before
    let ghost d0 = self.final_duals@; let ghost m0 = *self;
== loop 2 items
    invariant __len2 == __s2@.len(), items_of(__s2@, std_prob.jindex2constr@), *self == (Model { final_duals: self.final_duals, ..m0 }), entered(d0, __s2@, __i2 as int, solution.nu@, self.final_duals@),
        forall|i: usize| #[trigger] std_prob.jindex2constr@.contains_key(i) ==> i < solution.nu@.len(),
== at loop 2 begin
    let ghost dd = self.final_duals@;
== at loop 2 end
    proof { assert(std_prob.jindex2constr@.contains_key(*__s2@[__i2 as int].0)); lem_enter(d0, __s2@, __i2 as int, solution.nu@, dd); }
== at loop 2 after
    proof { lem_entered(d0, __s2@, solution.nu@, self.final_duals@, std_prob.jindex2constr@); }
== at loop 3 before
    let ghost d0 = self.final_duals@; let ghost m0 = *self;
== loop 3 items
    invariant __len3 == __s3@.len(), items_of(__s3@, std_prob.uindex2constr@), *self == (Model { final_duals: self.final_duals, ..m0 }), entered(d0, __s3@, __i3 as int, solution.mu@, self.final_duals@),
        forall|i: usize| #[trigger] std_prob.uindex2constr@.contains_key(i) ==> i < solution.mu@.len(),
== at loop 3 begin
    let ghost dd = self.final_duals@;
== at loop 3 end
    proof { assert(std_prob.uindex2constr@.contains_key(*__s3@[__i3 as int].0)); lem_enter(d0, __s3@, __i3 as int, solution.mu@, dd); }
== at loop 3 after
    proof { lem_entered(d0, __s3@, solution.mu@, self.final_duals@, std_prob.uindex2constr@); }
== at loop 4 before
    let ghost d0 = self.final_duals@; let ghost m0 = *self;
== loop 4 items
    invariant __len4 == __s4@.len(), items_of(__s4@, std_prob.lindex2constr@), *self == (Model { final_duals: self.final_duals, ..m0 }), entered(d0, __s4@, __i4 as int, solution.pi@, self.final_duals@),
        forall|i: usize| #[trigger] std_prob.lindex2constr@.contains_key(i) ==> i < solution.pi@.len(),
== at loop 4 begin
    let ghost dd = self.final_duals@;
== at loop 4 end
    proof { assert(std_prob.lindex2constr@.contains_key(*__s4@[__i4 as int].0)); lem_enter(d0, __s4@, __i4 as int, solution.pi@, dd); }
== at loop 4 after
    proof { lem_entered(d0, __s4@, solution.pi@, self.final_duals@, std_prob.lindex2constr@); }
== at pretail
    proof { lem_same_model(gm, *self, gsp); assert(reports(*self, gsp, solution)); assert(solve_ok(*self, solver, *self, gsp, std_prob.prob, Ok((status, solution)))); }
