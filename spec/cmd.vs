== config world tempfile spawn wait status remove_file solve
== fn SolverCbcCmd::solve
ret r
    requires match *old(problem) { Problem::Milp(p) => lp_data(p), Problem::Lp(p) => lp_data(p.base_milp), _ => true },
    ensures *final(problem) == *old(problem), match *old(problem) {
        Problem::Milp(p) => solve_post(self.parameters@, "cbc"@, true, p, *old(__w), *final(__w), r),
        Problem::Lp(p) => solve_post(self.parameters@, "cbc"@, true, p.base_milp, *old(__w), *final(__w), r),
        _ => r is Err && *final(__w) == *old(__w) },
== at begin
    proof { lem_one_value(self.parameters@, "logLevel"@); }
    let ghost w0 = *__w;
== at after let log_level
    proof { assert(has_level(self.parameters@, *log_level)); }
== at after has "write_to_lp_file"
    let ghost gs = choose|s: LpSt| #[trigger] wrote(*__w, input_filename@, s) && denotes(s, *p);
== at before has "read_sol_file"
    proof { assert(run_for(__w.runs@.last(), "cbc"@, *log_level as int, *p, input_filename@, output_filename@, gs)); }
== fn SolverClpCmd::solve
ret r
    requires match *old(problem) { Problem::Lp(p) => lp_data(p.base_milp), _ => true },
    ensures *final(problem) == *old(problem), match *old(problem) {
        Problem::Lp(p) => solve_post(self.parameters@, "clp"@, false, p.base_milp, *old(__w), *final(__w), r),
        _ => r is Err && *final(__w) == *old(__w) },
== at begin
    proof { lem_one_value(self.parameters@, "logLevel"@); }
== at after let log_level
    proof { assert(has_level(self.parameters@, *log_level)); }
== at after has "write_to_lp_file"
    let ghost gs = choose|s: LpSt| #[trigger] wrote(*__w, input_filename@, s) && denotes(s, p.base_milp);
== at before has "read_sol_file"
    proof { assert(run_for(__w.runs@.last(), "clp"@, *log_level as int, p.base_milp, input_filename@, output_filename@, gs)); }
== fn SolverCbcCmd::new | SolverClpCmd::new
ret r
    ensures exists|level: i32| #[trigger] has_level(r.parameters@, level),
== at begin
    broadcast use strings, vstd::std_specs::hash::group_hash_axioms;
== at tail
    proof { let parameters = __r.parameters; let k = choose|k: String| #[trigger] k@ == "logLevel"@; assert(parameters@.contains_key(k)); let lv = parameters@[k]->IntParam_0; assert(has_level(parameters@, lv)); assert(exists|level: i32| #[trigger] has_level(parameters@, level)); }
