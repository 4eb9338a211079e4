== config private FunctionAdd FunctionDiv
== config id_structs ConstantScalar VariableScalar FunctionAdd FunctionMul FunctionDiv FunctionSin FunctionCos ConstraintInner
== config mono CooMat CsrMat CooMatIter
== config flatten Hash ProblemBase NodeBase NodeCmp NodeDiff NodeFunc NodeStd ConstraintStd ModelStd ProblemLpBase ProblemMilpBase ProblemNlpBase ProblemMinlpBase ProblemMilpIO
== config skip_traits Debug Sum
