== config type cipopt::IpoptProblem RtIpopt
== config type c_int i32
== config type c_double F64
== config world CreateIpoptProblem FreeIpoptProblem AddIpoptIntOption AddIpoptStrOption IpoptSolve add_int_option add_str_option solve
== config method as_ptr .rt_as_ptr
== config method as_mut_ptr .rt_as_mut_ptr
== config path ptr::null_mut rt_null
== config path cipopt::CreateIpoptProblem CreateIpoptProblem
== config path cipopt::FreeIpoptProblem FreeIpoptProblem
== config path cipopt::AddIpoptIntOption AddIpoptIntOption
== config path cipopt::AddIpoptStrOption AddIpoptStrOption
== config path cipopt::IpoptSolve IpoptSolve
== config path eval_f_cb RtCb::F
== config path eval_g_cb RtCb::G
== config path eval_grad_f_cb RtCb::GradF
== config path eval_jac_g_cb RtCb::JacG
== config path eval_h_cb RtCb::H
== fn ProblemSol::new
ret r
    ensures r.x@.len() == nx, r.lam@.len() == na, r.nu@.len() == nf, r.pi@.len() == nx, r.mu@.len() == nx,
== fn add_int_option
ret r
    requires old(__w).live@.contains_key(cprob.id@), no_nul(key@),
    ensures option_set(r is Ok, cprob, with_int(old(__w).live@[cprob.id@], key@, val as int), *old(__w), *final(__w)), r is Err ==> final(__w).faults@ > old(__w).faults@,
== fn add_str_option
ret r
    requires old(__w).live@.contains_key(cprob.id@), no_nul(key@),
    ensures option_set(r is Ok, cprob, with_str(old(__w).live@[cprob.id@], key@, val@), *old(__w), *final(__w)), r is Err ==> final(__w).faults@ > old(__w).faults@ || final(__w).faults@ == old(__w).faults@ && !no_nul(val@),
== fn SolverIpopt::solve
ret r
loops 2
    requires match nlp_of(*old(problem)) { Some(p) => nlp_ok(p) && (p.base.x0 is Some ==> p.base.x0->0@.len() == nlp_nx(p)), None => true },
    ensures match nlp_of(*old(problem)) { Some(p) => ipopt_post(self.parameters@, p, *old(__w), *final(__w), r), None => r is Err && *final(__w) == *old(__w) },
== at begin
    broadcast use as_ref_string;
    let ghost w0 = *__w;
    let ghost p0 = nlp_of(*problem)->0;
    proof { lem_one_value(self.parameters@, "print_level"@); lem_one_value(self.parameters@, "sb"@); reveal_strlit("print_level"); reveal_strlit("sb"); }
== loop 0
    invariant nlp_ok(p0), nlp_same(p0, *p), solution.lam@.len() == nlp_na(p0), lamnu@.len() == nlp_na(p0) + nlp_nf(p0), sol_rest(solution, s0), solution.nu@ == s0.nu@,
        forall|i: int| 0 <= i < __it0.index() ==> (#[trigger] solution.lam@[i]).v@ == fv_neg(lamnu@[i].v@),
== at loop 0 before
    let ghost s0 = solution;
== at loop 1 before
    let ghost s1 = solution;
== loop 1
    invariant nlp_ok(p0), nlp_same(p0, *p), solution.nu@.len() == nlp_nf(p0), lamnu@.len() == nlp_na(p0) + nlp_nf(p0), sol_rest(solution, s1), solution.lam@ == s1.lam@,
        forall|i: int| 0 <= i < __it1.index() ==> (#[trigger] solution.nu@[i]).v@ == fv_neg(lamnu@[nlp_na(p0) + i].v@),
== at pretail
    proof { assert(last_run(w0, *__w, __w.runs@.last())); }
== fn SolverIpopt::new
ret r
    ensures exists|v: int| has_level(r.parameters@, v), exists|v: Seq<char>| #[trigger] has_sb(r.parameters@, v) && no_nul(v),
== at begin
    broadcast use strings, vstd::std_specs::hash::group_hash_axioms;
    proof { reveal_strlit("print_level"); reveal_strlit("sb"); reveal_strlit("no"); }
== at tail
    proof {
        let m = __r.parameters@; reveal_strlit("print_level"); reveal_strlit("sb"); reveal_strlit("no"); assert("print_level"@.len() != "sb"@.len());
        let k = choose|k: String| #[trigger] k@ == "print_level"@; assert(m.contains_key(k)); assert(has_param(m, "print_level"@, m[k])); let i = m[k]->IntParam_0; assert(has_param(m, "print_level"@, SolverParam::IntParam(i))); assert(has_level(m, i as int));
        let l = choose|k: String| #[trigger] k@ == "sb"@; assert(m.contains_key(l)); assert(has_param(m, "sb"@, m[l])); let s = m[l]->StrParam_0; assert(has_sb(m, s@)); assert(no_nul(s@));
    }
