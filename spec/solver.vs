== config flatten Solver
== config method get rt_get
== fn SolverCbcCmd::get_params | SolverClpCmd::get_params | SolverIpopt::get_params
ret r
    ensures *r == self.parameters,
== fn SolverCbcCmd::get_params_mut | SolverClpCmd::get_params_mut | SolverIpopt::get_params_mut
ret r
    ensures *r == old(self).parameters, final(self).parameters == *final(r),
== fn SolverCbcCmd::get_param | SolverClpCmd::get_param | SolverIpopt::get_param
ret r
    ensures match r { Some(v) => has_param(self.parameters@, name@, *v), None => forall|key: String| #[trigger] self.parameters@.contains_key(key) ==> key@ != name@ },
== at begin
    broadcast use strings;
== fn SolverCbcCmd::set_param | SolverClpCmd::set_param | SolverIpopt::set_param
ret r
    ensures set_spec(old(self).parameters@, final(self).parameters@, name@, value, r is Ok),
== at begin
    broadcast use strings, vstd::std_specs::hash::group_hash_axioms;
