T={
"C13":("symbolic index/size analysis: linear terms for every element access bounded by loop ranges, path conditions and guards, requirements carried to call sites","Static, all inputs: an access is reported when, at ends of the loop variables and span indices that are really attained, or at the smallest or largest accepted value of the one input it depends on, the index is provably outside the container. About four fifths of the obligations are proved; those whose index or size is data (values read from containers, while loops, unrelated inputs) are left undecided and counted."),
"C12":("ownership analysis: abstract interpretation over sets of heap graphs with summarised linked lists","Static, all paths and all call sequences (class invariant): leaks, second release, use after release, wrong release form, dangling or shared owners, copyable owners. Allocation failure by exception and pointers into pool blocks are outside."),
"C07":("value-numbering dataflow with zero/non-zero path facts (polynomial normal forms, clauses) at every division","Static, all paths and all inputs: no division by a quantity the function tests for zero, or that is recorded as guarded, is reachable while that quantity may be zero; constant answers on recognised degenerate paths are the recorded ones. Tolerances are read as exact zero tests; divisors that are never tested are outside the property."),
"C06":("path-partitioned outcome dataflow (typestate of status-returning steps) plus symbolic failure conditions","Static, all paths: no output of a step is used or handed out while its failure is possible, no operation succeeds after a failed or unasked step without a specified fallback, documented failure conditions over the arguments still fail. Failure conditions inside numeric loops are not compared."),
"C17":("query over every implicit conversion of the type-checked AST","Static, all conversions in the program: no real value is truncated without an explicit rounding or cast, no integer quotient becomes a real factor, no single precision outside the sweep generator. Says nothing about rounding error."),
"C08":("unit inference (linear unit equations over every function body), scalings of the weights","Static, all inputs: homogeneous and Euclidean quantities are never equated, added or compared, for every body and selector value, relative to a recorded unit specification per function. Only dimensional (scaling) errors are visible: a wrong dimensionless factor or a sign is not."),
"C09":("unit inference (linear unit equations over every function body), scalings of length","Static, all inputs: quantities of different powers of length are never equated, added or compared. Only dimensional errors are visible; coordinates of one vector share one unit, so a permuted axis is seen only where the axes are tracked separately."),
"C10":("unit inference (linear unit equations over every function body), scalings of each parametric direction and index dimensions","Static, all inputs: parameters, knots, degrees and indices of U, V and W are never mixed, and derivative orders match powers of the parameter. Functions whose recorded specification already equates the directions (square-only algorithms) are weaker."),
"C05":("loop-variant analysis on the AST: path-sensitive net change of every tested counter, and recursion-depth guards","Static, all paths and all inputs: each loop has an integer counter, shrinking gap, iterator, list or container that progresses on every path to its test against a bound that does not move away; each recursive call carries a guarded depth. 18 data-dependent loops are trusted for their bound and only checked for progress (listed in tables/termination.txt)."),
"C03":("flow-sensitive alias/overwrite dataflow on symbolic values","Static, all paths and all in-place calls: no field of an input shape is read once the same field of an output of the same type may hold another value; containers passed to helpers in the same call included."),
"C01":("symbolic guard extraction: path condition of every throw compared with the specified preconditions (implication)","Static, all argument values: every specified rejection is still implied by a throw that precedes any use of the argument and any output; no legal value is newly rejected; validity predicates keep their meaning."),
"C16":("symbolic size dataflow with interprocedural size summaries","Static, all sizes, degrees and selector values: the size of each result knot vector minus points minus degree minus one simplifies to zero on every path; results whose size depends on runtime multiplicities are listed as undecided in the evidence."),
"C14":("partial evaluation of the AST per selector value, specialised bodies compared","Static, all selector values: no two values share code, no selector is unused, no value takes another value's recorded treatment, enum switches are exhaustive without fall-through."),
"C02":("interprocedural must-write dataflow","Static, all paths: every field of every output is definitely written on every successful return. Covers which parts are written, not whether the values are right."),
"C04":("interprocedural effect (may-write) analysis","Static, all calls: computes everything each function can write (parameters, globals, statics) and every nondeterminism source it can reach; inputs and globals must not be in the set."),
"C15":("symbolic dataflow (term) comparison of the marshalling code and declaration matching across languages","Static, all entry points: the result and each output of every C and Python binding is a term over its parameters and native calls, compared with the reviewed term; .NET declarations are matched with the C prototypes, structs and enumerators. The lifetime of handed-out buffers is by contract."),
"C11":("definite-assignment dataflow","Static, all paths: scalars, fixed buffers and scalar members are assigned before they are read; container elements are value-initialised by the language."),
}
NA={
"N01":"pointwise equality of two numerically computed shapes: a statement about runtime values that no structural rule decides",
"N02":"residuals of a solved linear system are runtime values",
"N03":"global optimality of a Newton/tessellation search is a runtime fact about the particular shape",
"N04":"quadrature error is a numerical fact about the particular integrand",
"N05":"exactness of branch-and-bound pruning is an arithmetic fact about distances at run time; the structural parts (termination, ownership) are C05 and C12",
"N06":"the empty-circumcircle condition is an arithmetic fact about the particular point set",
}
