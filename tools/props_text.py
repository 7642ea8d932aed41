# --- claimed -------------------------------------------------------------
p("C01","Illegal arguments are rejected before any work is done",
 "Every public operation that documents a precondition on an argument (degree positive and within the supported maximum, repeat counts positive, parameters inside the knot range, non-zero direction vectors, positive radii, non-empty or equally sized inputs, knot count fitting degree and control points) throws a standard exception for every argument value violating it. The rejection happens before the argument is used for computation or indexing and before any output is written. Legal argument values, including the boundary ones, are accepted.",
 ["inputs"],"all argument values of all public operations","tests exercise at most one bad value of a few operations; the precondition must hold for every value of every operation",
 [S+"Algorithm/Polynomials.cpp",CUR,SUR,S+"Algorithm/Interpolation.cpp",S+"Algorithm/KnotVectorUtils.cpp",S+"include/LNLibExceptions.h",S+"include/BsplineCurve.h",S+"include/BezierCurve.h"],
 [("validation macros and predicates",S+"include/LNLibExceptions.h, "+S+"Algorithm/ValidationUtils.cpp")],["std::invalid_argument / std::out_of_range thrown by the call"])
p("C02","Successful operations leave every output completely defined",
 "Whenever a public operation returns normally without reporting failure, every output argument it takes has been given a complete value by that call: all members of a returned curve, surface, volume or mesh (degrees, knot vectors, control points) and every scalar or point output. No part of a result keeps whatever the caller's object held before the call, and no output is lost because it was written to a private copy.",
 ["inputs"],"all inputs, all normally-returning paths, all previous contents of the output object","tests pass freshly constructed outputs and look at a few members on one path",
 [CUR,SUR,VOL,S+"Algorithm/Interpolation.cpp",S+"Algorithm/Intersection.cpp"],[("result members assigned at the end of each operation",CUR+", "+SUR+", "+VOL)],["output arguments after a successful return"])
p("C03","A result object may be the same object as an input",
 "Operations that transform a curve, surface or volume into another one give the same answer when the caller passes the same object as input and as output as when the two are distinct. Once any part of an output has been overwritten, the operation no longer reads an input that could be that same object.",
 ["inputs"],"all inputs, all aliasing choices of same-typed input and output arguments","no test passes the same object twice, although the library itself does",
 [CUR,SUR,VOL],[("inputs copied to locals, results stored last",CUR+", "+SUR+", "+VOL)],["output object of an in-place call"])
p("C04","Operations are pure: no hidden state, inputs untouched, repeatable",
 "Calling any operation leaves all of its input arguments bit-for-bit unchanged, and leaves no hidden state behind: there is no mutable global or function-static data that a call writes, so concurrent calls on distinct objects do not interfere and the answer never depends on earlier calls. Equal inputs give equal outputs: no clock, address, environment or unseeded randomness influences a result, except for the documented choice of an arbitrary perpendicular direction.",
 ["schedules","histories","inputs"],"all interleavings of calls from several threads, all previous call histories, all inputs","tests are single threaded, call each operation once and do not compare the inputs afterwards",
 [S+"Algorithm/Integrator.cpp",SUR,CUR,S+"Mathematics/Math/XYZ.cpp",S+"Algorithm/Polynomials.cpp"],[("value-semantics static member functions, constant tables",S+"include/Integrator.h")],["inputs after the call; two runs of the same call"])
p("C05","Every computation terminates",
 "Every operation returns or throws after a bounded amount of work on every input, including degenerate and non-finite ones: each iterative refinement stops after a bounded number of steps whether or not it converges, every loop makes progress on every path through its body, and every recursion has a bound on its depth that does not depend on convergence.",
 ["inputs"],"all inputs, including those on which an iteration does not converge","a test that returns says nothing about the inputs on which the iteration does not converge",
 [CUR,SUR,VOL,S+"Mathematics/Utils/MathUtils.cpp",S+"Algorithm/KnotVectorUtils.cpp",S+"Algorithm/Voronoi.cpp",S+"Algorithm/Octree/Octree.cpp"],[("iteration caps, depth caps, counted loops",CUR+", "+SUR)],["return of the call"])
p("C06","Failure of an internal step is never reported as success",
 "When a step an operation depends on reports that it could not be carried out (rays that do not intersect, a knot that cannot be removed, an arc that cannot be built, a degree that cannot be reduced), the operation itself reports failure, takes its documented fallback, or leaves the step's output unused. It never goes on to use the output of a failed step and never reports success after one.",
 ["inputs","fault_sequences"],"all inputs on which some internal step fails","tests use configurations on which the internal steps succeed",
 [CUR,SUR,S+"Geometry/Curve/BezierCurve.cpp",S+"Algorithm/Interpolation.cpp"],[("boolean and enumeration results checked at the call",CUR+", "+SUR)],["return value of the operation"])
p("C07","Degenerate denominators are detected, not divided by",
 "Where an operation tests a quantity for being (almost) zero to recognise a degenerate configuration (vanishing tangent, parallel lines, singular first fundamental form, coincident knots, zero total length), no path on which that quantity may be zero divides by it. Every such recognised degenerate configuration ends in the operation's documented degenerate answer rather than in infinities or NaN.",
 ["inputs"],"all degenerate inputs","tests use regular configurations; the guarded division is not reached with a zero divisor",
 [CUR,SUR,S+"Algorithm/Interpolation.cpp",S+"Algorithm/Polynomials.cpp",S+"Mathematics/Math/XYZ.cpp",S+"Algorithm/Intersection.cpp",S+"Mathematics/Utils/MathUtils.cpp"],[("tolerant zero tests before divisions",S+"Algorithm/Intersection.cpp, "+SUR)],["finite results on degenerate inputs"])
p("C08","Weights act projectively: a common factor never changes the shape",
 "Multiplying all four homogeneous coordinates of every control point of the inputs by one common positive factor does not change any Euclidean quantity that is returned (points, derivatives, lengths, curvatures, parameters, distances), and multiplies homogeneous results by that factor. Homogeneous and Euclidean coordinates are therefore never mixed in a sum, comparison or assignment, and every weighted quantity is divided by a weight exactly once before it is used as a Euclidean one.",
 ["inputs"],"all rational curves, surfaces and volumes with arbitrary weights","almost all tests use unit weights, for which homogeneous and Euclidean coordinates coincide",
 [CUR,SUR,VOL,S+"Mathematics/Math/XYZW.cpp",S+"include/BsplineCurve.h",S+"include/BsplineSurface.h",S+"Algorithm/ControlPointsUtils.cpp"],[("ToXYZ(true/false), GetW, homogeneous arithmetic",S+"Mathematics/Math/XYZW.cpp")],["results for weights scaled by a constant"])
p("C09","Results do not depend on the unit of length",
 "Scaling all model coordinates and model lengths of the inputs by a common factor scales every returned quantity by the power of that factor its meaning demands: points, offsets and lengths by the first power, areas by the second, curvature by the inverse, parameters, weights, angles and dimensionless answers not at all (comparison tolerances aside). Quantities of different powers of length are never added, compared or assigned to one another, and the three coordinate axes are never mixed outside of inner products, cross products, norms and transforms.",
 ["inputs"],"all inputs at all scales and all component directions","tests use one scale, often of order one, where a missing or extra factor of length is invisible",
 [CUR,SUR,VOL,S+"Mathematics/Math/XYZ.cpp",S+"Algorithm/Intersection.cpp",S+"Algorithm/Projection.cpp",S+"Algorithm/Interpolation.cpp",S+"Algorithm/Octree/Octree.cpp",S+"Algorithm/Voronoi.cpp"],[("formulas of the operations",CUR+", "+SUR+", "+S+"Mathematics/Math")],["results for inputs scaled by a constant"])
p("C10","Results follow the parameter scale, and U, V, W never mix",
 "Rescaling the knots and parameters of one parametric direction by a factor scales parameters returned for that direction by the same factor and k-th derivatives by its inverse k-th power, and leaves geometry and the other directions unchanged. For surfaces and volumes each parametric direction is always evaluated with its own degree, its own knot vector, its own parameter and its own control-point index, for every combination of different degrees and sizes in the directions.",
 ["inputs","configurations"],"all knot ranges, all combinations of differing degrees, sizes and ranges in U, V and W","tests use square surfaces with equal degrees and knots in [0,1], for which mixing directions or missing a range factor is invisible",
 [SUR,VOL,CUR,S+"include/BsplineSurface.h",S+"include/BezierSurface.h",S+"Algorithm/Polynomials.cpp",S+"Algorithm/KnotVectorUtils.cpp"],[("per-direction kernels called with matching degree, knots, span and index",SUR+", "+VOL)],["results for rescaled or differently sized directions"])
p("C11","No computation reads an undefined value",
 "No returned value, branch or output depends on storage that was not given a value on the path taken: every local variable and fixed-size buffer element is assigned before it is read, and every constructor leaves each scalar member of the object defined.",
 ["inputs"],"all paths of all operations","undefined storage often happens to hold zero in a test process",
 [CUR,SUR,VOL,S+"include/UV.h",S+"include/XYZ.h",S+"Algorithm/Voronoi.cpp",S+"Algorithm/Octree/OctreeCollector.cpp",S+"Algorithm/Polynomials.cpp"],[("initialisation at declaration and in constructors",S+"Mathematics/Math, "+S+"include/LNObject.h")],["results"])
p("C12","Memory is released exactly once on every path",
 "Every block of dynamic memory the library allocates is owned by exactly one object or call and is released exactly once, with the matching form of release, on every path out of that owner, and is not used afterwards. Objects that own raw memory release all of it when destroyed and when reused for another computation.",
 ["inputs","histories"],"all call histories on generators and trees, all exits of allocating operations","leaks and double releases do not fail a test",
 [S+"Algorithm/Voronoi.cpp",S+"Algorithm/Octree/Octree.cpp",SUR],[("cleanup and destructor chains",S+"Algorithm/Voronoi.cpp, "+S+"Algorithm/Octree/Octree.cpp")],["heap after the call"])
p("C13","Container accesses stay inside the sizes the code itself established",
 "Every element access to an array or vector whose size was established in the same operation (by construction, resize, or an accepted argument's size relation) uses an index that is at least zero and below that size, for all sizes and degrees the operation accepts, including the smallest ones. Buffers sized by the maximum degree are only filled up to a degree that has been validated against that maximum.",
 ["inputs"],"all sizes and degrees accepted","out-of-range accesses by one element rarely crash; tests use a few sizes",
 [CUR,SUR,VOL,S+"Algorithm/Polynomials.cpp",S+"Algorithm/KnotVectorUtils.cpp",S+"Algorithm/Interpolation.cpp",S+"Mathematics/Utils/MathUtils.cpp"],[("container construction and loop bounds",CUR+", "+SUR)],["memory outside the containers"])
p("C14","Selectors are honoured: each enumerator and flag gets its own treatment",
 "An operation taking a direction flag, a direction enumerator or another selector gives each selector value its own documented treatment: every enumerator of the type has a case, no two enumerators that mean different things silently share one treatment, and a value outside the enumeration is not treated as a valid one without being recognised.",
 ["inputs","configurations"],"all selector values of all selecting operations","tests cover one or two selector values per operation",
 [SUR,VOL,CUR,S+"include/LNEnums.h",S+"Algorithm/Integrator.cpp"],[("switch statements and comparison chains over the enumerations",SUR+", "+VOL+", "+CUR)],["results per selector value"])
p("C15","Language bindings agree with the native interface",
 "In the C, .NET and Python bindings every enumerator has the numeric value of its native counterpart, every shared record has the native layout, and every wrapped operation forwards each of its parameters, in the right position, to the native operation of the same name and hands all of its outputs back; storage in which results are handed out is not shared between threads.",
 ["inputs","programs"],"all binding entry points and all enumerators","the bindings are not built or tested by the test suite",
 ["dotnet/CAPI/include","dotnet/CAPI/src","dotnet/PInvoke/src","python/src",S+"include/LNEnums.h"],[("hand-written mirrors of the native declarations","dotnet/CAPI, dotnet/PInvoke, python/src")],["values crossing the language boundary"])
p("C16","Results satisfy the knot count rule",
 "Every curve, surface or volume an operation hands out satisfies, in each parametric direction, number of knots = number of control points + degree + 1, whenever its inputs did: any operation that changes a degree, a knot vector or the control points of a result changes the others by the matching amount.",
 ["inputs"],"all inputs, all degrees, sizes and repeat counts","tests check a few results of fixed size",
 [CUR,SUR,VOL,S+"Algorithm/Interpolation.cpp"],[("sizes of the knot vectors and control nets built by each operation",CUR+", "+SUR+", "+VOL)],["sizes of result members"])
p("C17","Real quantities are computed in reals, in full precision",
 "No coordinate, weight, knot, parameter, length, angle or tolerance loses its fraction or its precision on the way to a result: absolute values, quotients and interpolation factors are computed in double precision for every value of the operands. A real value becomes an integer only where the algorithm asks for a whole number by an explicit rounding or cast, an already truncated integer quotient is never used as a real factor, and single precision is used only by the plane-sweep triangulation generator.",
 ["inputs"],"all values of all real quantities","for whole-numbered or large test values the truncated and the real computation agree within the tolerance of the assertion",
 [CUR,SUR,VOL,S+"Algorithm/Interpolation.cpp",S+"Mathematics/Utils/MathUtils.cpp",S+"Algorithm/Integrator.cpp"],[("implicit conversions in the formulas",CUR+", "+SUR)],["results for non-integral values"])
# --- not claimed (runtime-quantified) -----------------------------------
p("N01","Knot insertion, refinement, splitting and elevation keep the shape",
 "Inserting or refining knots, elevating the degree, decomposing into Bezier pieces, splitting and reparametrising yield geometry that is pointwise equal (up to rounding) to the input over the corresponding parameter range.",
 ["inputs"],"all curves, surfaces, volumes and parameters","tests compare a handful of parameters",[CUR,SUR,VOL],[("knot insertion and elevation algorithms",CUR)],["points of input and result"])
p("N02","Interpolation passes through, and approximation stays near, the data",
 "Global and local interpolation results pass through every given point (and meet every given tangent), and error-bounded approximation stays within the requested bound of every data point.",
 ["inputs"],"all data sets","a few data sets",[CUR,SUR,S+"Algorithm/Interpolation.cpp"],[("linear systems solved by the fitting operations",CUR)],["distance of result to data"])
p("N03","Inverse queries find the closest parameter",
 "Point inversion returns a parameter whose point is the globally closest one (up to tolerance) on the curve, surface or volume, and length queries return the parameter at the requested arc length.",
 ["inputs"],"all query points","a few query points",[CUR,SUR,VOL],[("tessellation plus Newton iteration",CUR+", "+SUR)],["distance at the returned parameter"])
p("N04","Numerical integration meets its tolerance",
 "The three length and area integrators agree with the true value, and with each other, within the stated tolerance.",
 ["inputs"],"all curves and surfaces","a few shapes",[S+"Algorithm/Integrator.cpp",CUR,SUR],[("quadrature rules",S+"Algorithm/Integrator.cpp")],["returned length or area"])
p("N05","Neighbour searches return exactly the nearest points",
 "Octree radius and k-nearest searches return exactly the points brute force would return, for every point set, radius and k.",
 ["inputs"],"all point sets and queries","no test covers it",[S+"Algorithm/Octree/Octree.cpp",S+"Algorithm/Octree/OctreeCollector.cpp"],[("branch-and-bound pruning",S+"Algorithm/Octree/Octree.cpp")],["result set"])
p("N06","Delaunay triangles are Delaunay",
 "The triangulation used for adaptive meshing contains every generated vertex and no circumcircle of a triangle contains another vertex.",
 ["inputs"],"all point sets","one surface",[S+"Algorithm/Voronoi.cpp",SUR],[("sweep-line algorithm",S+"Algorithm/Voronoi.cpp")],["returned triangles"])
