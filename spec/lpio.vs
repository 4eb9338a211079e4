== config text 1 minimize minimum minimise min
== config text 2 obj:
== config text 3 subject
== config text 4 to
== config text 5 =
== config text 6 <= =<
== config text 7 bounds bound
== config text 8 general generals gen integer integers
== config text 9 end
== config text 10 +
== config text 11 -
== config text 12 x_
== config text 13 c_
== config text 14 :
== config text 15 st s.t. st.
== config world create flush write_to_lp_file
== fn ProblemMilp::write_to_lp_file
ret r
loops 5
    requires lp_data(*self),
    ensures only_file(*old(__w), *final(__w), filename@), match r { Ok(_) => exists|s: LpSt| #[trigger] wrote(*final(__w), filename@, s) && denotes(s, *self), Err(e) => from_os(e) },
== at begin
    broadcast use {lex_snoc, lex_nil, rdec_close};
    let ghost gp = *self;
== loop 0
    invariant __s0@ == self.c@, __len0 == self.c@.len(), lp_data(*self), *self == gp, w.name@ == filename@, only_file(*old(__w), *__w, filename@),
        at_term(w.st@), w.st@ == (LpSt { terms: w.st@.terms, sec: Sec::Terms, ..lp_init() }), obj_upto(w.st@.terms, self.c@, __i0 as int)
== at loop 0 begin
    let ghost gs = w.st@;
    proof { assert(is_r(self.c@[__i0 as int])); }
== at loop 0 end
    proof { assert(adds(gs.terms, w.st@.terms, __i0 as int, rv(self.c@[__i0 as int]))); lem_obj_step(gs.terms, w.st@.terms, self.c@, __i0 as int); }
== at after let a
    let ghost go = a;
== at loop 1 before
    let ghost gr0 = w.st@;
    let ghost ga = a;
== loop 1
    invariant a == ga, *self == gp, lp_data(*self), w.name@ == filename@, only_file(*old(__w), *__w, filename@),
        go.wf(), summed(go, a), go.shape == self.base.a.shape, go.indices@.len() == self.base.a.row_inds@.len(),
        forall|i: int| 0 <= i < go.shape.0 ==> #[trigger] go.row(i) == row_of(self.base.a, i),
        gr0.sec == Sec::Rows, w.st@ == (LpSt { rows: w.st@.rows, name: w.st@.name, ..gr0 }), gr0.sign == 0, gr0.coef is None, gr0.cur is E, gr0.terms == Seq::<(int, real)>::empty(), !gr0.in_obj,
        rows_upto(w.st@.rows, *self, i as int)
== at loop 1 begin
    let ghost gs1 = w.st@;
    proof { assert(is_r(self.base.b@[i as int])); assert(a.indptr@[i as int] <= a.indptr@[i + 1]); assert(a.indptr@[i + 1] <= a.indptr@[a.shape.0 as int]); lem_uniq_nodup(go, a, i as int); }
== at loop 1 end
    proof {
        lem_row_terms(w.st@.rows[i as int].terms, *self, go, a, i as int);
        assert(row_for(w.st@.rows[i as int], *self, i as int));
        assert forall|q: int| 0 <= q < i + 1 implies row_for(#[trigger] w.st@.rows[q], *self, q) by { if q < i { assert(w.st@.rows[q] == gs1.rows[q]); } }
    }
== at loop 2 before
    let ghost gr2 = w.st@;
== loop 2
    invariant __HI(a.indptr@[i + 1]), __LO(a.indptr@[i as int]), a == ga, *self == gp, lp_data(*self), w.name@ == filename@, only_file(*old(__w), *__w, filename@), 0 <= i < a.shape.0,
        go.wf(), summed(go, a), go.shape == self.base.a.shape, go.indices@.len() == self.base.a.row_inds@.len(),
        forall|i: int| 0 <= i < go.shape.0 ==> #[trigger] go.row(i) == row_of(self.base.a, i),
        gr2.sec == Sec::Terms, gr2.sign == 0, gr2.coef is None, gr2.cur is E, !gr2.in_obj, w.st@ == (LpSt { terms: w.st@.terms, ..gr2 }),
        nodup(a.indices@, a.indptr@[i as int] as int, a.indptr@[i + 1] as int), 0 <= a.indptr@[i as int] <= a.indptr@[i + 1] <= a.indices@.len(), a.indices@.len() == a.data@.len(),
        csr_upto(w.st@.terms, a.indices@, a.data@, a.indptr@[i as int] as int, k as int)
== at loop 2 begin
    let ghost gs2 = w.st@;
    proof { lem_entry_r(*self, go, a, i as int, k as int); }
== at loop 2 end
    proof { assert(adds(gs2.terms, w.st@.terms, a.indices@[k as int] as int, rv(a.data@[k as int]))); lem_csr_step(gs2.terms, w.st@.terms, a.indices@, a.data@, a.indptr@[i as int] as int, k as int, a.indptr@[i + 1] as int); }
== at loop 3 before
    let ghost gr3 = w.st@;
== loop 3
    invariant *self == gp, lp_data(*self), w.name@ == filename@, only_file(*old(__w), *__w, filename@), gr3.sec == Sec::Bnds, gr3.cur is E, w.st@ == (LpSt { bnds: w.st@.bnds, lo: w.st@.lo, var: w.st@.var, ..gr3 }),
        bnds_upto(w.st@.bnds, *self, i as int)
== at loop 3 begin
    let ghost gs3 = w.st@;
    proof { assert(is_r(self.base.l@[i as int])); assert(is_r(self.base.u@[i as int])); }
== at loop 3 end
    proof {
        assert(bnd_for(w.st@.bnds[i as int], *self, i as int));
        assert forall|q: int| 0 <= q < i + 1 implies bnd_for(#[trigger] w.st@.bnds[q], *self, q) by { if q < i { assert(w.st@.bnds[q] == gs3.bnds[q]); } }
    }
== at loop 4 before
    let ghost gr4 = w.st@;
== loop 4
    invariant __s4@ == self.base.p@, __len4 == self.base.p@.len(), *self == gp, lp_data(*self), w.name@ == filename@, only_file(*old(__w), *__w, filename@), gr4.sec == Sec::Gen, gr4.cur is E, w.st@ == (LpSt { gen: w.st@.gen, ..gr4 }),
        gen_upto(w.st@.gen, *self, __i4 as int)
== at pretail
    proof { assert(denotes(w.st@, *self)); assert(wrote(*__w, filename@, w.st@)); }
