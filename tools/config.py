"""Which contracts decide which property.

spec: contract files, prelude: theory files (in /verif/spec)
own:  functions whose obligations are this property
deps: functions whose contracts the proofs of `own` rest on; they are discharged in the
      same run, but a failure there is another property's to report
"""

MAT = dict(spec=["00config.vs", "matrix.vs"], prelude=["prelude.rs", "matrix.rs"])
COO_BASE = ["CooMat::new", "CooMat::rows", "CooMat::cols", "CooMat::nnz", "CooMat::row_inds", "CooMat::col_inds", "CooMat::data"]

NODE = dict(spec=["00config.vs", "nodes.vs"], prelude=["prelude.rs", "nodes.rs"])
NODE_ACC = ["PartialEq for Node::eq", "Clone for Node::clone", "Node::is_constant", "Node::is_constant_with_value", "ConstantScalar::new", "ConstantScalar::value"]
NODE_NEW = ["ConstantScalar::zero", "VariableScalar::new", "VariableScalar::new_continuous", "VariableScalar::new_integer",
            "FunctionAdd::new", "FunctionMul::new", "FunctionDiv::new", "FunctionSin::new", "FunctionCos::new"]
FUNS = ["FunctionAdd", "FunctionMul", "FunctionDiv", "FunctionSin", "FunctionCos"]
KINDS = ["ConstantScalar", "VariableScalar"] + FUNS
ARGUMENTS = [k + "::arguments" for k in KINDS + ["Node"]]
EVALUATE = [k + "::evaluate" for k in KINDS + ["Node"]]
PARTIAL = [k + "::partial" for k in KINDS + ["Node"]]
def _ops():
    out = []
    for tr, fn in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div")):
        for a, b in (("&Node", "&Node"), ("Node", "&Node"), ("&Node", "Node"), ("Node", "Node"), ("f64", "&Node"), ("f64", "Node"), ("&Node", "f64"), ("Node", "f64")):
            out.append("%s<%s> for %s::%s" % (tr, b, a, fn))
    return out + ["Neg for &Node::neg", "Neg for Node::neg"]
OPS = _ops()
FUNC = ["Node::sin", "Node::cos"]
T_NODE = ["identity model: structural equality of two nodes in the contracts is identity of the allocation (each ::new takes a fresh identity; Rc::ptr_eq is equality)",
          "Hash for Node agrees with equality (obeys_key_model); checked by search in N17"]

CONS = dict(spec=["00config.vs", "nodes.vs", "cons.vs"], prelude=["prelude.rs", "nodes.rs", "cons.rs"])
CONS_ACC = ["PartialEq for Constraint::eq", "Clone for Constraint::clone", "Constraint::new", "Constraint::kind", "Constraint::label", "Constraint::lhs", "Constraint::rhs", "Constraint::violation"]
CSTD = dict(spec=CONS["spec"] + ["cstd.vs"], prelude=CONS["prelude"] + ["cstd.rs"])
CMP = ["%s::%s<%s>" % (a, m, b) for a, b in (("Node", "f64"), ("Node", "Node"), ("Node", "&Node"), ("f64", "Node"), ("f64", "&Node"))
       for m in ("equal", "equal_and_tag", "leq", "leq_and_tag", "geq", "geq_and_tag")]
STDPROP = [k + "::std_properties" for k in FUNS + ["Node"]]

PROB = dict(spec=["00config.vs", "matrix.vs", "prob.vs"], prelude=["prelude.rs", "matrix.rs", "prob.rs"])
COO_USED = ["CooMat::from_nnz", "CooMat::rows", "CooMat::cols", "CooMat::nnz"]
_ACC = {"Minlp": "x0 phi gphi hphi a b f j h l u p nx na nf evaluate", "Milp": "x0 c a b l u p nx na as_mut_minlp",
        "Nlp": "x0 phi gphi hphi a b f j h l u nx na nf evaluate as_mut_minlp", "Lp": "x0 c a b l u nx na as_mut_milp as_mut_minlp as_mut_nlp"}
PROB_ACC = ["Problem%s::%s" % (t, m) for t, ms in _ACC.items() for m in ms.split()]
PROB_NEW = ["Problem%s::new" % t for t in _ACC]
T_EVAL = ["a boxed evaluation function called through the problem behaves as the closure it was made from (the closure's body is verified as a function of its own)",
          "ndarray's ArrayView1::dot is the sum of the products", "derive(Clone) on CooMat copies"]

MSTD = dict(spec=["00config.vs", "matrix.vs", "nodes.vs", "cons.vs", "cstd.vs", "prob.vs", "mstd.vs"],
            prelude=["prelude.rs", "matrix.rs", "nodes.rs", "cons.rs", "cstd.rs", "prob.rs", "mstd.rs"])
T_MSTD = ["sort_by permutes its vector", "the standard containers' extend/collect add exactly the elements",
          "vectors that exist at the same time have a total length that fits usize (address space)",
          "a bound that is the f64 NaN is not compared (IEEE), f64 arithmetic idealised"]

SHOW = dict(spec=["00show.vs", "nodes.vs", "cons.vs", "show.vs"], prelude=["prelude.rs", "nodes.rs", "cons.rs", "show.rs"])
FMT = [k + "::fmt" for k in KINDS + ["Node", "Constraint"]]
T_SHOW = ["{} of a value prints what the value's own Display function prints, and {} of a real f64 or a string prints that number or string (std)",
          "recursion through {} is partial correctness: the arguments' text is what their Display functions are verified to print, termination is not proved",
          "reading back: a name stands for its variable, numbers may carry a sign; real arithmetic"]
MSHOW = dict(spec=SHOW["spec"] + ["mshow.vs"], prelude=SHOW["prelude"] + ["mshow.rs"])

PROPS = {
    "N23": dict(MSHOW, own=["Model::fmt", "Constraint::label"], deps=FMT, trusted=T_NODE + T_SHOW),
    "D23": dict(SHOW, own=FMT, deps=[], trusted=T_NODE + T_SHOW),
    "M01": dict(MAT,
        own=["CooMat::to_csr", "CsrMat::new", "CsrMat::rows", "CsrMat::cols", "CsrMat::nnz", "CsrMat::indptr", "CsrMat::indices", "CsrMat::data"],
        deps=COO_BASE),
    "M02": dict(MAT,
        own=["CsrMat::sum_duplicates"],
        deps=["CsrMat::new", "CsrMat::rows", "CsrMat::cols", "CsrMat::nnz", "CsrMat::indptr", "CsrMat::indices", "CsrMat::data"]),
    "M03": dict(MAT,
        own=COO_BASE + ["CooMat::from_pattern", "CooMat::from_nnz", "CooMat::data_mut", "CooMat::set_row_ind", "CooMat::set_col_ind",
                        "CooMat::iter", "CooMatIter::new", "Iterator for CooMatIter<T>::next", "Mul<Vec<T>> for &CooMat<T>::mul"],
        deps=[]),
    "N12": dict(NODE, own=OPS + ["FunctionAdd::new", "FunctionMul::new", "FunctionDiv::new", "Node::is_constant", "Node::is_constant_with_value", "ConstantScalar::zero"],
        deps=NODE_ACC + ARGUMENTS, trusted=T_NODE),
    "N13": dict(NODE, own=EVALUATE + ["ConstantScalar::value", "ConstantScalar::new"] + FUNC + ["FunctionSin::new", "FunctionCos::new"],
        deps=["Clone for Node::clone"], trusted=T_NODE),
    "N14": dict(NODE, own=PARTIAL + ["Node::all_simple_paths", "Node::derivatives", "Node::derivative"] + ARGUMENTS,
        deps=OPS + FUNC + NODE_ACC + NODE_NEW, trusted=T_NODE),
    "N15": dict(NODE, own=STDPROP, deps=NODE_ACC, trusted=T_NODE),
    "N16": dict(NODE, own=["Node::std_components"], deps=STDPROP + ["Node::derivatives"] + NODE_ACC, trusted=T_NODE),
    "N17": dict(CONS, own=["PartialEq for Node::eq", "Clone for Node::clone", "Node::hash", "PartialEq for Constraint::eq", "Clone for Constraint::clone", "Constraint::hash", "Node::name"]
            + ["VariableScalar::" + m for m in ("new", "new_continuous", "new_integer", "is_continuous", "is_integer", "name")],
        deps=[], trusted=T_NODE[:1] + ["the standard hash containers find a key exactly under an equal key if equality and hashing agree (obeys_key_model)",
            "ptr::hash feeds the address of the object it is given, and nothing else"]),
    "C18": dict(CONS, own=[k for k in CONS_ACC if " for " not in k] + CMP,
        deps=["Clone for Node::clone", "ConstantScalar::new"] + EVALUATE, trusted=T_NODE),
    "C19": dict(CSTD, own=["Constraint::std_components", "ConstraintStdComp::new"],
        deps=["Node::std_components", "VariableScalar::new", "VariableScalar::new_continuous", "ConstantScalar::new"] + [k for k in CONS_ACC if "eq" not in k] + [o for o in OPS if o.startswith("Sub") and "f64" not in o],
        trusted=T_NODE + ["a variable obtained from VariableScalar::new occurs in no expression that existed before (the equivalence lemmas' hypothesis about the slack)", "derive(PartialEq) on ConstraintKind", "the text produced by format! is not modelled (names of slack variables)"]),
    "P04": dict(PROB, own=PROB_NEW + [k + "!rejects" for k in PROB_NEW] + PROB_ACC,
        deps=COO_USED + ["CooMat::set_row_ind", "CooMat::set_col_ind", "CooMat::iter", "Iterator for CooMatIter<T>::next"], trusted=T_EVAL),
    "P05": dict(PROB, own=["ProblemMinlp::new!hcomb", "ProblemNlp::new!hcomb", "ProblemMinlp::evaluate!hcomb", "ProblemMinlp::combine_h", "ProblemNlp::combine_h", "ProblemMinlp::hcomb", "ProblemNlp::hcomb"],
        deps=COO_USED + ["CooMat::set_row_ind", "CooMat::set_col_ind", "CooMat::iter", "Iterator for CooMatIter<T>::next", "CooMat::data", "CooMat::data_mut", "ProblemMinlp::nf", "ProblemNlp::nf"], trusted=T_EVAL[:1]),
    "Q20": dict(MSTD, own=["Model::std_problem", "Model::std_components", "ConstraintStdComp::add_assign", "Model::objective", "Model::constraints", "Model::init_primals",
                           "Model::new", "Model::set_objective", "Model::add_constraint", "Model::add_constraints", "Model::set_init_primals", "Objective::minimize", "Objective::maximize", "Objective::empty"],
        deps=["Constraint::std_components", "ConstraintStdComp::new", "Node::std_components", "VariableScalar::is_integer", "VariableScalar::name", "Node::name", "Clone for Node::clone", "Clone for Constraint::clone", "ConstantScalar::new",
              "Neg for &Node::neg", "CooMat::new"] + PROB_NEW, trusted=T_NODE + T_EVAL + T_MSTD),
    "Q21": dict(MSTD, own=["Model::std_problem!eval", "CooMat::data_mut"],
        deps=["Model::std_components", "Constraint::std_components", "Node::std_components", "Clone for Node::clone", "VariableScalar::is_integer", "CooMat::new", "ProblemMinlp::evaluate", "ProblemNlp::evaluate"] + EVALUATE + PROB_NEW,
        trusted=T_NODE + T_EVAL + T_MSTD),
    "Q22": dict(MSTD, own=["Model::solve", "Model::solver_status", "Model::final_primals", "Model::final_duals"],
        deps=["Model::std_problem", "Clone for Node::clone", "Clone for Constraint::clone"],
        trusted=T_NODE + T_MSTD[1:2] + ["a solver that succeeds returns one value per variable, row and bound (contract of trait Solver; what the solvers here return is S08, S09, S11)"]),
    "P06": dict(spec=PROB["spec"] + ["lpio.vs"], prelude=PROB["prelude"] + ["io.rs", "lpio.rs"],
        own=["ProblemMilp::write_to_lp_file"],
        deps=["CooMat::to_csr", "CsrMat::new", "CsrMat::rows", "CsrMat::cols", "CsrMat::nnz", "CsrMat::indptr", "CsrMat::indices", "CsrMat::data", "CsrMat::sum_duplicates"] + COO_BASE
            + ["ProblemMinlp::%s" % m for m in "a b l u p".split()] + ["ProblemMilp::%s" % m for m in "c a b l u p nx na".split()],
        trusted=["std's formatting: `{:.Ne}` prints a finite number correctly rounded to N+1 significant digits, `{}` prints naturals, characters and numbers exactly",
                 "BufWriter::write takes all of a line (lines are shorter than its buffer); a successful flush leaves what was written in the created file",
                 "the LP language is the automaton of spec/lpio.rs (words, sections, expressions, bounds)"]),
    "S08": dict(spec=PROB["spec"] + ["solfile.vs"], prelude=PROB["prelude"] + ["io.rs", "solfile.rs"],
        own=["SolverCbcCmd::read_sol_file", "ProblemSol::new"],
        deps=["ProblemMinlp::b", "ProblemMilp::c", "ProblemMilp::b", "ProblemMilp::nx", "ProblemMilp::na"],
        trusted=["std's text functions (reading lines, splitting into words and at a character, parsing numbers, comparing, prefix and substring tests): what they return is named in the contract by uninterpreted functions of the text; S08's search compares with real files",
                 "a line and the same line with its terminator have the same words; an empty text has none"]),
    "S09": dict(spec=PROB["spec"] + ["lpio.vs", "solfile.vs", "solver.vs", "cmd.vs"], prelude=PROB["prelude"] + ["io.rs", "lpio.rs", "solfile.rs", "solver.rs", "cmd.rs"],
        own=["SolverCbcCmd::solve", "SolverClpCmd::solve", "SolverCbcCmd::new", "SolverClpCmd::new"],
        deps=["ProblemMilp::write_to_lp_file", "SolverCbcCmd::read_sol_file", "ProblemSol::new", "ProblemLp::as_mut_milp"]
            + ["Solver%s::%s" % (t, m) for t in ("CbcCmd", "ClpCmd") for m in ("get_params", "get_param")]
            + ["CooMat::to_csr", "CsrMat::new", "CsrMat::rows", "CsrMat::cols", "CsrMat::nnz", "CsrMat::indptr", "CsrMat::indices", "CsrMat::data", "CsrMat::sum_duplicates"] + COO_BASE
            + ["ProblemMinlp::%s" % m for m in "a b l u p".split()] + ["ProblemMilp::%s" % m for m in "c a b l u p nx na".split()],
        trusted=["tempfile: names not used before in the process nor in the working directory, and no file once the handle is dropped",
                 "a run of the command with a line ending in `solution NAME` changes no file but NAME; the command itself (its answer is whatever that file holds)",
                 "remove_file removes the file or reports that it cannot (then a file may stay)",
                 "std's formatting and text functions, BufWriter, BufReader, String keys of a HashMap as in P06, S07, S08"]),
    "S10": dict(spec=PROB["spec"] + ["nlpcb.vs"], prelude=PROB["prelude"] + ["nlp.rs", "rawmem.rs", "nlpcb.rs"],
        own=["eval_f_cb", "eval_grad_f_cb", "eval_g_cb", "eval_jac_g_cb", "eval_h_cb"],
        deps=["Problem%s::%s" % (t, m) for t in ("Minlp", "Nlp") for m in "phi gphi hphi a b f j hcomb nx na nf evaluate combine_h".split()]
            + ["CooMat::nnz", "CooMat::data", "CooMat::data_mut", "CooMat::iter", "Iterator for CooMatIter<T>::next", "Mul<Vec<T>> for &CooMat<T>::mul"],
        trusted=T_EVAL + ["raw memory: a pointer is an allocation and an offset, from_raw_parts/copy/stores act on the cells of one allocation; the two structure buffers are different allocations; as_ptr carries the vector's content at that moment (a dangling pointer is not tracked)",
                 "Ipopt passes null or buffers of the size it announces, new_x 0 or 1, and its own problem as user data; it sets new_x when the point changed (the answer is at the point then; else at the point of the last evaluation)",
                 "the problem's matrices have entries inside their dimensions and sizes that fit c_int; the user's function can be called at any point and only writes values (lengths and sparsity patterns stay)",
                 "ndarray's elementwise difference"]),
    "S11": dict(spec=PROB["spec"] + ["solver.vs", "ipopt.vs"], prelude=PROB["prelude"] + ["nlp.rs", "solver.rs", "ipopt.rs"],
        own=["SolverIpopt::solve", "SolverIpopt::new", "add_int_option", "add_str_option", "ProblemSol::new"],
        deps=["Problem%s::%s" % (t, m) for t in ("Minlp", "Nlp") for m in "x0 hphi a b f j hcomb l u nx na nf".split()]
            + ["ProblemLp::as_mut_nlp", "SolverIpopt::get_params", "SolverIpopt::get_param", "CooMat::nnz"],
        trusted=T_EVAL[:1] + ["libipopt: a created problem is a new handle or null, options are taken or refused, a solve fills the vectors it is given and uses the problem only through the callbacks (what these answer is S10) with the announced sizes and index style",
                 "as_ptr of a vector hands over its content; CString::new refuses exactly texts with a NUL",
                 "the problem's matrices have entries inside their dimensions and sizes that fit c_int, its initial point has one value per variable; the user's function only writes values"]),
    "S07": dict(spec=["00config.vs", "solver.vs"], prelude=["prelude.rs", "solver.rs"],
        own=["Solver%s::%s" % (t, m) for t in ("CbcCmd", "ClpCmd", "Ipopt") for m in ("get_params", "get_params_mut", "get_param", "set_param")], deps=[],
        trusted=["String keys: a HashMap<String, _> finds a key exactly by its text (get, get_mut with a &str)", "derive(Clone) on SolverParam copies"]),
}

TRUSTED_COMMON = [
    "Verus 0.2026.09.13 and Z3",
    "vstd's specifications of the standard library",
    "extract/ (textual lowering of /repo's sources into Verus' language, rules in DESIGN.md)",
    "rustc's compilation of the original sources",
]
