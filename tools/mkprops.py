#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("M01","Coordinate to row-compressed conversion preserves the matrix",
  "Converting a sparse matrix from coordinate to compressed-row form yields a well-formed row-compressed matrix (row pointers start at 0, never decrease and end at the number of stored entries) that stores exactly the same (row, column, value) entries, duplicates and explicit zeros included, each under its own row and, within a row, in the order in which they were stored. The source matrix, its shape and its entry count are unchanged.",
  ["inputs"],"every coordinate matrix whose row indices are within its shape, in any entry order, with duplicates, empty rows and explicit zeros",
  "One unit test converts one 4x5 matrix; the claim is over all shapes, index orders and duplicates.",
  ["src/matrix/coo.rs","src/matrix/csr.rs"],
  [("CooMat::to_csr","src/matrix/coo.rs"),("CsrMat::new","src/matrix/csr.rs")])
p("M02","Summing duplicates keeps the matrix and removes duplicates",
  "Summing duplicate entries of a row-compressed matrix in place leaves a well-formed matrix of the same shape in which no row stores a column twice, every column stored before is still stored in its row in order of first occurrence, and the value stored at each (row, column) is the sum of all values previously stored there. A matrix without duplicates is left unchanged.",
  ["inputs"],"every well-formed row-compressed matrix with column indices within its shape",
  "Unit tests cover one matrix; wrong bookkeeping shows only for particular interleavings of rows and repeated columns.",
  ["src/matrix/csr.rs"],[("CsrMat::sum_duplicates","src/matrix/csr.rs")])
p("M03","Coordinate matrix iteration, construction and product with a vector",
  "A coordinate matrix built from parallel index and value lists (or from a pattern or entry count, with zero values) reports exactly the shape, entry count and entries it was given, and iterating over it yields every stored (row, column, value) triple once, in order, and can be repeated. Multiplying it by a vector of matching length gives, in each row, the sum of stored value times vector element over all entries of that row, duplicates included; mismatched lengths are rejected.",
  ["inputs"],"every coordinate matrix with indices within its shape and every vector",
  "One example product and one example iteration are tested.",
  ["src/matrix/coo.rs"],[("CooMat::new/from_pattern/from_nnz/iter","src/matrix/coo.rs"),("Mul<Vec<T>> for &CooMat<T>","src/matrix/coo.rs"),("CooMatIter::next","src/matrix/coo.rs")])
p("P04","Problem objects hold, evaluate and expose exactly the data given",
  "Every problem object (LP, MILP, NLP, MINLP) reports back exactly the matrices, vectors, bounds, integrality marks and initial point it was constructed with, in each view it can be cast to, and rejects inconsistent dimensions of bounds, right-hand sides, Jacobians and Hessians. Evaluating an LP or MILP in any view at a point x gives objective value c'x and objective gradient c whatever was evaluated before; evaluating an NLP or MINLP hands x and the stored buffers to the user's function and exposes exactly what it wrote.",
  ["inputs","histories"],"all problem data with consistent dimensions, all points, any sequence of evaluations",
  "Tests evaluate a few fixed problems at one point each.",
  ["src/problem/minlp.rs","src/problem/milp.rs","src/problem/nlp.rs","src/problem/lp.rs","src/problem/base.rs"],
  [("ProblemMinlp::new/evaluate","src/problem/minlp.rs"),("ProblemMilp::new","src/problem/milp.rs"),("ProblemLp::new","src/problem/lp.rs"),("ProblemNlp::new","src/problem/nlp.rs")])
p("P05","Combined constraint Hessian is the multiplier-weighted sum",
  "The combined constraint Hessian of an NLP or MINLP has from construction on one entry for every entry of every constraint Hessian, at the same row and column, in constraint order, and that pattern never changes. Combining with multipliers nu sets it to represent the sum of nu_i times the i-th constraint Hessian as last evaluated, replacing whatever a previous combination left there and altering nothing else.",
  ["inputs","histories"],"all numbers of constraints and Hessian patterns (also empty ones), all multipliers, any sequence of evaluations and combinations",
  "One test with two constraints; accumulation or offset errors need several constraints with different entry counts or repeated calls.",
  ["src/problem/minlp.rs","src/problem/nlp.rs"],[("ProblemMinlp::combine_h","src/problem/minlp.rs"),("ProblemMinlp::new","src/problem/minlp.rs")],
  [("hcomb","combined Hessian buffer","src/problem/minlp.rs")])
p("P06","Written LP files describe exactly the problem",
  "The LP file written for an LP or MILP denotes that problem, with every number correct to 11 significant digits: the same objective coefficients to be minimized, one equality row per linear constraint in order with the summed coefficient of every variable and the right right-hand side, both bounds of every variable, and exactly the integer-marked variables listed as general. Row i is named c_i and variable j is named x_j, and terms with zero coefficient are left out. A file that cannot be written in full is an error.",
  ["inputs"],"all LP and MILP data with finite numbers, duplicates and explicit zeros in the constraint matrix included",
  "Tests solve three small problems through a solver or compare nothing at all; signs, unit coefficients, duplicates and extreme magnitudes are not sampled.",
  ["src/problem/milp.rs"],[("ProblemMilpIO::write_to_lp_file","src/problem/milp.rs")],None,["the LP file"])
p("S07","Solver parameters keep their type and setting is all-or-nothing",
  "Setting an existing solver parameter to a value of the same kind succeeds and is what is read back and used afterwards, and setting an unknown parameter or a value of another kind returns an error and changes nothing. No setting ever alters another parameter, adds a parameter or changes a parameter's kind.",
  ["histories","inputs"],"all sequences of get and set operations with any names and values, for every solver interface",
  "Tests make one successful and one or two failing calls.",
  ["src/solver/base.rs","src/solver/cbc_cmd.rs","src/solver/clp_cmd.rs","src/solver/ipopt.rs"],[("Solver::set_param","src/solver/base.rs")])
p("S08","Reading a solver solution file recovers status, values and duals",
  "Reading a Cbc or Clp solution file for a problem returns the status its first line reports (optimal is solved, infeasible and integer-infeasible are infeasible, anything else, an empty or a missing file is an error status) and, when solved, puts each variable's value at its index, each row's dual at its row, and each variable's reduced cost as lower-bound dual if positive and otherwise, negated, as upper-bound dual, with zero for whatever the file does not list. A file that claims an optimal solution but has a malformed line, an unknown name or an index outside the problem is reported as an error; no file content makes the reader panic.",
  ["inputs","fault_sequences"],"all solution-file contents (also truncated, corrupted or for a different problem), for both solver formats",
  "Tests read outputs of successful solver runs only.",
  ["src/solver/cbc_cmd.rs"],[("SolverCbcCmd::read_sol_file","src/solver/cbc_cmd.rs")],None,["returned status and solution"])
p("S09","Command-line solvers pass the problem on and leave no files behind",
  "Solving through the Cbc or Clp interface runs the solver once on an LP file describing the given problem with the configured log level, and returns exactly what the solution file the solver wrote says, with vectors sized to the problem. Problem types the solver does not support, a solver that cannot be run and an unreadable solution file are errors, and however the call returns no input or solution file is left behind and the files already there are untouched.",
  ["fault_sequences","inputs","configurations"],"all problems and parameters, and solvers that succeed, fail, write nothing, or write garbage",
  "Tests run the happy path with the installed solvers.",
  ["src/solver/cbc_cmd.rs","src/solver/clp_cmd.rs"],[("SolverCbcCmd::solve","src/solver/cbc_cmd.rs"),("SolverClpCmd::solve","src/solver/clp_cmd.rs")],None,["LP file handed to the solver","working directory after the call"])
p("S10","Ipopt sees the problem's functions, derivatives and structure",
  "For every problem handed to the Ipopt interface and every sequence of requests Ipopt may make, each request is answered with the objective, gradient, constraint residuals (a x - b, then the nonlinear ones), Jacobian (entries of a, then of the nonlinear Jacobian) or Lagrangian Hessian (objective factor times objective Hessian, then constraint Hessians weighted by the nonlinear multipliers) of the problem at the current point, in the same order as the sparsity structure reported. Requests with wrong dimensions or missing buffers are refused without touching memory.",
  ["histories","inputs"],"all NLP and LP data, and all request sequences with any combination of new-point and new-multiplier flags",
  "Tests run Ipopt end to end on two problems; they cannot observe individual requests, flags or refusals.",
  ["src/solver/ipopt.rs"],[("eval_f_cb, eval_grad_f_cb, eval_g_cb, eval_jac_g_cb, eval_h_cb","src/solver/ipopt.rs")],None,["buffers filled by the callbacks"])
p("S11","Ipopt results are mapped back to status, point and multipliers",
  "The Ipopt interface starts from the problem's initial point (zero if none), passes its variable bounds, zero constraint bounds and its parameters, and returns the final point, bound multipliers as lower- and upper-bound duals, and the negated constraint multipliers split into linear then nonlinear ones. Status is solved for Ipopt codes 0 and 1, infeasible for 2 and error otherwise, unsupported problem types and failures to create or configure Ipopt's problem are errors, and the Ipopt problem is always released.",
  ["inputs","fault_sequences"],"all LP and NLP data, all return codes and final iterates, creation or option failures",
  "Tests see only successful runs of the real library.",
  ["src/solver/ipopt.rs"],[("SolverIpopt::solve","src/solver/ipopt.rs")])
p("N12","Arithmetic operators build expressions with the right value",
  "For any two operands (expressions or numbers, owned or borrowed) the expression built by +, -, *, / or negation evaluates, wherever both operands evaluate to a number and no division by zero occurs, to the sum, difference, product, quotient or negative of the operands' values, whatever simplifications are applied. Building an expression never panics except when dividing by a constant zero, and never changes its operands.",
  ["inputs","programs"],"all expressions and numbers built by any sequence of operator applications, all variable values",
  "Tests compare printed forms of a few dozen fixed expressions.",
  ["src/model/node.rs","src/model/function/add.rs","src/model/function/mul.rs","src/model/function/div.rs"],
  [("impl_node_add_*/mul_*/neg/sub_*/div_* macros","src/model/node.rs")])
p("N13","Evaluating an expression gives its mathematical value",
  "Evaluating an expression with given variable values returns the constant's value, the given value of a variable, and for sums, products, quotients, sines and cosines the operation applied to the values of all arguments. If any variable it needs is missing from the given values the result is not-a-number, and values given for other variables, even of the same name, have no influence.",
  ["inputs","programs"],"all expressions of any depth and sharing, all assignments (partial and superfluous ones included)",
  "Tests evaluate a handful of expressions at one point.",
  ["src/model/node_base.rs","src/model/function/add.rs","src/model/function/mul.rs","src/model/function/div.rs","src/model/function/cos.rs","src/model/function/sin.rs"],
  [("NodeBase::evaluate","src/model/node_base.rs"),("evaluate of each function","src/model/function")])
p("N14","Derivatives are the exact derivatives of the expression",
  "The derivative of any expression with respect to a variable evaluates, wherever the expression's divisions are defined, to its mathematical partial derivative at that point, also when subexpressions are shared, repeated or occur on both sides of an operation, and is zero for variables that do not occur. Derivatives with respect to a list of variables contain exactly one entry per distinct variable, each equal to its single derivative; repeating the operation gives second and higher derivatives.",
  ["inputs","programs"],"all expressions (including derivatives of derivatives), all variables, all points where denominators are nonzero",
  "Tests compare the printed derivative of about twenty expressions.",
  ["src/model/node_diff.rs","src/model/function/add.rs","src/model/function/mul.rs","src/model/function/div.rs","src/model/function/cos.rs","src/model/function/sin.rs"],
  [("NodeDiff::derivatives/all_simple_paths","src/model/node_diff.rs"),("NodeBase::partial","src/model/function")])
p("N15","Affine detection and affine coefficients are correct",
  "When an expression is reported affine, its value at every point where it is defined equals the sum of the reported coefficients times the variables plus the reported constant. In every case the reported coefficient map has exactly the variables occurring in the expression as keys.",
  ["inputs","programs"],"all expressions, all variable values",
  "Tests check the properties of about fifteen expressions.",
  ["src/model/node_std.rs","src/model/function/add.rs","src/model/function/mul.rs","src/model/function/div.rs","src/model/function/cos.rs","src/model/function/sin.rs"],
  [("NodeStd::std_properties","src/model/node_std.rs, src/model/function")])
p("N16","Standard components give value, full gradient and full Hessian",
  "The standard components of an expression contain the expression itself, exactly one gradient entry per variable occurring in it, equal to the partial derivative, and Hessian entries that list every unordered pair of variables at most once and equal the second partial derivative, with every pair left out having a second derivative of zero everywhere. Affine expressions have constant gradient entries equal to their coefficients and no Hessian entries.",
  ["inputs","programs"],"all expressions, all pairs of their variables, all points where the expression is defined",
  "Tests check component counts of a few expressions; the order of hash-map iteration varies per run.",
  ["src/model/node_std.rs"],[("NodeStd::std_components","src/model/node_std.rs")])
p("N17","Expressions and constraints are compared and hashed by identity",
  "Two expression handles, or two constraint handles, are equal exactly when one was obtained by cloning the other (directly or through further clones), equal handles hash equally, and cloning preserves everything observable. Separately created variables, expressions or constraints are distinct even if they have the same name, structure or label, so values stored under one are never found under the other. A variable keeps the name and kind (continuous or integer) it was created with.",
  ["inputs","programs"],"all handles created by any sequence of constructions and clones",
  "Tests compare a few pairs.",
  ["src/model/node.rs","src/model/constraint.rs"],[("PartialEq/Hash/Clone for Node","src/model/node.rs"),("PartialEq/Hash/Clone for Constraint","src/model/constraint.rs")])
p("C18","Comparisons build the stated constraint and measure its violation",
  "Comparing expressions or numbers with equal, leq or geq (with or without tag) builds a constraint whose left side, kind, right side and label are exactly the ones stated. Its violation at a point is |lhs - rhs| for equality, max(0, lhs - rhs) for less-or-equal and max(0, rhs - lhs) for greater-or-equal, hence zero exactly when the constraint holds there.",
  ["inputs","programs"],"all operand combinations (expression or number on either side, owned or borrowed), all tags and points",
  "Tests build a few constraints; not every operand combination and kind is sampled.",
  ["src/model/node_cmp.rs","src/model/constraint.rs"],[("NodeCmp impls","src/model/node_cmp.rs"),("Constraint::violation","src/model/constraint.rs")])
p("C19","Standard form of a constraint is equivalent to the constraint",
  "Transforming a constraint to standard form yields exactly one of: a single variable bound, a linear equality row, or a nonlinear equality row, the last two with a fresh slack variable bounded by zero on the right side exactly for inequalities; a point satisfies the constraint if and only if some slack value makes the standard form hold. Row numbers count up by one per row, a linear row's coefficients and right-hand side reproduce lhs - rhs (minus slack), a nonlinear row's expression, Jacobian and Hessian entries are lhs - rhs (minus slack) and all its derivatives, and every entry refers back to the originating constraint.",
  ["inputs","programs"],"all constraints of any kind over affine and nonaffine expressions, any starting row numbers",
  "Tests check seven fixed constraints.",
  ["src/model/constraint_std.rs"],[("ConstraintStd::std_components","src/model/constraint_std.rs"),("ConstraintStdComp::add_assign","src/model/constraint_std.rs")])
p("Q20","The standard problem of a model is the model",
  "The standard problem of a model numbers its variables (those of objective, constraints and slacks) one-to-one from 0 to n-1, minimizes the objective (negated when maximizing) over the standard forms of all its constraints in order, has for each variable the tightest of the model's bounds within the box [-1e8, 1e8], marks exactly the integer variables as integer and starts from the given initial values (zero otherwise). It is an LP or MILP exactly if objective and constraints are all affine, and has integrality exactly if an integer variable occurs; each row and each active bound is mapped to the model constraint it came from.",
  ["inputs","programs"],"all models: any objective kind, any number and mix of constraints and integer variables, any initial values",
  "Tests build fewer than ten models.",
  ["src/model/model_std.rs","src/model/model.rs"],[("ModelStd::std_problem","src/model/model_std.rs"),("ModelStd::std_components","src/model/model_std.rs"),("Model::add_constraint/set_objective/set_init_primals","src/model/model.rs")])
p("Q21","Evaluating the standard problem evaluates the model's functions",
  "Evaluating the nonlinear standard problem of a model at a point gives the (minimized) objective value, its full gradient, every nonlinear row value, the Jacobian entries and the lower-triangular Hessian entries of the objective and of each row, each equal to the value of the corresponding model expression or derivative at that point. The result depends only on the point, not on earlier evaluations, and sparsity patterns stay as first reported.",
  ["inputs","histories","programs"],"all models with a nonaffine objective or constraint, all points, any sequence of evaluations",
  "Tests evaluate two models at one point each.",
  ["src/model/model_std.rs"],[("std_problem eval closure","src/model/model_std.rs")])
p("Q22","Solving a model reports the solver's results under the right names",
  "After a successful solve the model's status is the solver's, its final primal values hold exactly one value per variable of the standard problem, taken from that variable's position in the solver's solution, and its final duals give each constraint the multiplier of the row or bound that represents it (of its slack's bound for inequalities with a slack). Every solve discards earlier results first, so after a failed solve no status, primal or dual remains, and the objective, constraints and initial values of the model are never changed.",
  ["inputs","histories","fault_sequences"],"all models, all solver results including errors, any sequence of solves",
  "Tests solve a few models once each with real solvers.",
  ["src/model/model.rs"],[("Model::solve","src/model/model.rs")])
p("D23","Printed expressions and constraints read back as themselves",
  "The printed (Display) text of every expression, read with the usual precedence (* and / bind tighter than + and associate to the left, parentheses, sin and cos), denotes an expression with the same value wherever the printed one is defined, with every constant given exactly. A constraint prints as its left side, its relation and its right side. A place that stops taking text makes printing fail with an error, not a panic.",
  ["inputs","programs","fault_sequences"],"all expressions and constraints with finite constants and identifier-like distinct variable names, and all places to print to",
  "Tests compare the text of a few expressions; nesting of sums, products and quotients on either side is barely sampled and failing writers not at all.",
  ["src/model/node.rs","src/model/constraint.rs","src/model/constant.rs","src/model/variable.rs","src/model/function/add.rs","src/model/function/mul.rs","src/model/function/div.rs","src/model/function/sin.rs","src/model/function/cos.rs"],
  [("Display for Node and the function types","src/model/function/*.rs"),("Display for Constraint","src/model/constraint.rs")])
p("N23","A printed model shows its goal, its objective and every constraint with its label",
  "The printed (Display) text of a model is, line by line: an empty line, the goal (Minimize, Maximize or Find point), the objective expression (or an empty line), and, exactly when there are constraints, an empty line, the line Subject to, and every constraint once, in the order added, on a line of its own, followed by ' : ' and its label exactly when the label is not empty. A place that stops taking text makes printing fail with an error, not a panic.",
  ["inputs","histories","fault_sequences"],"all models and all places to print to",
  "One test compares the text of one model.",
  ["src/model/model.rs","src/model/constraint.rs"],
  [("Display for Model","src/model/model.rs"),("Constraint::label","src/model/constraint.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sch)
    for x in P: assert len(x["title"])<=80,x["title"]
    print(len(P),"ok")
except ImportError: pass
