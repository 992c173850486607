NA = {}

P("V01", "Variables: one derivation chain per variable, each order with its own value",
  "Deriving a variable always leads to the same single object for a given order, and going back (one, several or all orders) leads to the object the derivation started from; order, space, size and identity never change. "
  "A value written at one order (whole, per element, per segment, zeroing) is exactly what is read back there and never changes the value of another order or of an unrelated variable, a refused write changes nothing, and a new variable or a new derivative starts at zero. "
  "Duplicating a variable gives an independent variable of the same order, space and current value.",
  ["histories", "inputs"], "all sequences of creating, deriving, going back to primitives, writing, duplicating, on all spaces and orders",
  "Tests follow one or two fixed short chains; the interplay of creation order, sub-variables, manifold spaces and writes is unbounded.",
  ["include/tvm/Variable.h", "src/Variable.cpp", "include/tvm/Space.h", "src/Space.cpp"],
  [("derivation and primitives", "src/Variable.cpp: dot, primitive, basePrimitive"), ("value storage", "src/Variable.cpp: set, constructors")],
  "random operation programs on variables, with an online reference model of every live handle as oracle",
  "Exploration: thousands of random programs of up to 40 operations; every live handle compared to the model after every operation. Trusts the model in harness/variables.cpp.")

P("V02", "Sub-variables are exact live windows on their super-variable",
  "A sub-variable, at any nesting depth and derivation order, reads and writes exactly the coordinates it was built for of its super-variable, in both directions and immediately; requests for coordinates outside the variable are refused. "
  "Its reported ranges, space, shift, super-variable and automatic name describe those coordinates. "
  "Equality, containment and intersection between variables hold exactly when the coordinate ranges (of the same variable at the same order) are equal, included, overlapping.",
  ["histories", "inputs"], "all nestings of sub-variables, of derivatives, on Euclidean and manifold spaces, and all writes through any window",
  "Tests check a few fixed slices; correctness depends on combinations of shift, nesting, manifold dimensions and derivation order.",
  ["include/tvm/Variable.h", "src/Variable.cpp", "include/tvm/Range.h", "include/tvm/Space.h"],
  [("window creation", "src/Variable.cpp: subvariable"), ("relations", "src/Variable.cpp: contains, intersects, operator==")],
  "random programs of sub-variable creation and writes, with a coordinate-level reference model as oracle",
  "Exploration: thousands of random programs, all live windows and random pairs compared to the model after each operation.")

P("V03", "Storage of related variables lives as long as any of them is held",
  "As long as a variable, any of its derivatives or any of its sub-variables is held by the user, every object reachable from it (primitives, super-variable) stays valid and keeps its value, in whatever order the other handles are dropped. "
  "When the last handle of the whole family is dropped, everything is released.",
  ["histories"], "all orders of acquiring and dropping handles of a family of related variables",
  "Tests keep all handles alive until the end of their scope; errors show only for specific drop orders and often without a visible failure.",
  ["include/tvm/Variable.h", "src/Variable.cpp"],
  [("ownership between base, derivatives and sub-variables", "src/Variable.cpp: shared_from_this, superVariable, primitive")],
  "random acquire/drop programs; the sanitizer and weak references observe early release and leaks",
  "Exploration: random drop orders; AddressSanitizer decides use-after-free, weak references decide leaks.")

P("V04", "A vector of variables is an ordered set with exact mapping and values",
  "After any sequence of additions, removals (by variable or index), clears, copies (including onto itself), moves and swaps, a vector of variables holds, in insertion order and without duplicates, exactly the variables it should; adding a variable already covered does nothing, adding one that overlaps only partially is refused and changes nothing. "
  "The place of any (part of a) contained variable in the concatenation is exact, with or without cached information from earlier queries on this or other vectors, and querying a variable not contained is refused. "
  "Reading or writing the concatenated value is the same as reading or writing each variable in order.",
  ["histories", "inputs"], "all edit histories of several vectors sharing (overlapping, derived, manifold) variables, interleaved with queries",
  "Cached mappings and copies/moves only go wrong after particular interleavings over several vectors, which tests do not enumerate.",
  ["include/tvm/VariableVector.h", "src/VariableVector.cpp", "src/Variable.cpp"],
  [("ordered set", "src/VariableVector.cpp: add, remove, addAndGetIndex"), ("mapping cache", "src/VariableVector.cpp: getMappingOf; src/Variable.cpp: getMappingIn")],
  "random edit histories of several vectors, compared after each edit to an ordered-set model",
  "Exploration: thousands of random histories with up to 5 vectors; contents, sizes, values and mapping of random variables compared after every operation.")

P("V05", "The union of added and removed (parts of) variables is counted exactly",
  "For any sequence of additions and removals of possibly overlapping parts of variables, the reported union covers exactly the coordinates added more often than removed, as maximal contiguous parts, and an operation reports a change exactly when this union changes; removing something that is not present is refused and changes nothing. "
  "When a split is requested, the parts are disjoint, cover the same coordinates, have a constant count each, have limits only where an added or removed part had one, and any part still present is exactly a union of consecutive parts. "
  "Iterating over variables through such a partition visits, for each variable in order, exactly its parts in order.",
  ["histories", "inputs"], "all add/remove histories over overlapping ranges and variables",
  "The bookkeeping depends on the order and multiplicity of overlapping ranges; tests try a few dozen hand-written ones.",
  ["src/internal/RangeCounting.cpp", "src/internal/VariableCountingVector.cpp", "include/tvm/internal/VariableVectorPartition.h"],
  [("counted ranges", "src/internal/RangeCounting.cpp: add, remove, ranges"), ("counted variables", "src/internal/VariableCountingVector.cpp: add, remove, update")],
  "random add/remove histories, compared to per-coordinate counters",
  "Exploration: thousands of histories of up to 40 operations over up to 24 coordinates.")

P("G01", "One update executes exactly the needed calls, once each, in dependency order",
  "Executing a call graph runs every update that the requested outputs need, directly or through any chain of declared dependencies (output, internal, input and direct dependencies, including inherited ones), exactly once. "
  "It runs no other update. "
  "Every update runs after all the updates whose results it uses, whatever the order of declarations and requests.",
  ["programs", "configurations"], "all acyclic networks of nodes and dependencies, all sets of requested outputs and declaration orders",
  "Tests check a few small hand-drawn graphs; ordering errors depend on the shape of the network and on declaration order.",
  ["include/tvm/graph/CallGraph.h", "src/CallGraph.cpp", "src/DependencyGraph.cpp", "include/tvm/graph/internal/AbstractNode.h", "include/tvm/graph/abstract/Node.h"],
  [("plan construction", "src/CallGraph.cpp: update, Plan::build"), ("dependency declarations", "include/tvm/graph/abstract/Node.h: addOutputDependency, addInternalDependency, addInputDependency, addDirectDependency")],
  "random networks whose update functions log every call; an offline checker compares the log to the declared needs and partial order",
  "Exploration: thousands of random networks, with randomized declaration order; executed-call logs are checked for exactly-once, nothing-else and happens-before.",
  observe="calls of the update functions registered by nodes")

P("G02", "Cyclic computations are refused, acyclic ones never are",
  "Building the plan of a network whose needed updates depend on each other cyclically is refused with an error; no update of a cycle is ever silently dropped from a plan. "
  "An acyclic network is never refused. "
  "Reduction and ordering of dependency graphs keep exactly the reachability of the original graph, and the order respects every edge.",
  ["programs", "configurations"], "all directed graphs and networks, with or without cycles, rooted or not",
  "Cycle detection has to be right for every graph shape (several components, self loops, cycles without root); tests use five shapes.",
  ["src/DependencyGraph.cpp", "include/tvm/graph/internal/DependencyGraph.h", "src/CallGraph.cpp"],
  [("ordering and reduction", "src/DependencyGraph.cpp: order, reduce"), ("plan", "src/CallGraph.cpp: Plan::build")],
  "random directed graphs and networks, compared to a reference reachability/cycle computation",
  "Exploration: thousands of random graphs of up to a dozen nodes.")

P("G03", "A call graph always executes the plan of its current requests",
  "After any history of requests, repeated requests, plan updates, executions and clears, executing the graph does what a new graph with the currently registered requests would do; requests are idempotent. "
  "The graph keeps what it needs alive while registered, and a cleared or destroyed graph keeps nothing alive.",
  ["histories"], "all histories of add, re-add, update, execute and clear on one graph",
  "State left by an earlier plan only shows with reuse of the same graph, which tests barely do.",
  ["src/CallGraph.cpp", "include/tvm/graph/CallGraph.h", "src/Inputs.cpp", "include/tvm/graph/internal/Inputs.h"],
  [("registration", "include/tvm/graph/CallGraph.h: add"), ("clearing", "src/CallGraph.cpp: clear, update")],
  "random histories on one graph, each execution compared to the one of a reference model; weak references observe ownership",
  "Exploration: thousands of histories; logs after each execution compared to a fresh computation.")

P("G04", "Disabled outputs and updates cannot be declared, requested or executed",
  "An output disabled for a class or for an instance is refused when it is used in a dependency or requested as an input, whichever position it has in a list of several, and an enabled one is accepted. "
  "A class-disabled output cannot be enabled back on an instance, and enabling, disabling and locking of outputs by instance behave as a per-instance switch. "
  "Dependencies on unregistered functions or on disabled updates are refused.",
  ["configurations", "histories"], "all combinations of static and dynamic enabling, of outputs and updates and positions in a request",
  "Tests check each refusal once in its simplest form, not lists, inheritance or toggling histories.",
  ["include/tvm/graph/abstract/Outputs.h", "include/tvm/graph/abstract/Node.h", "include/tvm/graph/internal/Inputs.h", "src/Inputs.cpp"],
  [("static and dynamic switches", "include/tvm/graph/abstract/Outputs.h: isOutputEnabled, EnableDynamic"), ("checks on declaration", "include/tvm/graph/abstract/Node.h: addInputDependency...; include/tvm/graph/internal/Inputs.h: addInput")],
  "random toggling histories and declarations, compared to a reference switch model",
  "Exploration: thousands of random histories.")

P("P01", "Properties computed for derived matrices are true of these matrices",
  "The properties (shape, positiveness, invertibility, constness) attached to the result of a negation, scaling, sum, product, transpose, inverse, block or assignment hold numerically for this result, whenever the declared properties of the operands hold for them. "
  "Contradictory declarations are refused, and derived facts (an identity is invertible, a diagonal is both triangular and symmetric, ...) are answered accordingly.",
  ["inputs", "programs"], "all combinations and chains of operations on all classes of matrices with truthful declarations",
  "The algebra is a large case table, read by solvers to drop work; an unsound cell only shows for one combination of operand classes.",
  ["include/tvm/internal/MatrixProperties.h", "src/MatrixProperties.cpp", "include/tvm/internal/MatrixWithProperties.h"],
  [("operators", "src/MatrixProperties.cpp: operator-, operator+, operator*"), ("construction", "include/tvm/internal/MatrixProperties.h: MatrixProperties"), ("propagation in assignments", "include/tvm/internal/MatrixWithProperties.h: KeepProperties, MatrixPropertiesRef")],
  "random chains of property operations mirrored on real matrices; an oracle tests each claim numerically",
  "Exploration: tens of thousands of random chains.")

P("F01", "Functions report exactly what their variables, matrices and values say",
  "For a linear function built and modified in any supported way, value, velocity, jacobian (of each variable or of any part of it), JDot, normal acceleration, b and sizes are those of sum A_i x_i + b with the current matrices and variable values, terms on a same variable or a part of it being summed. "
  "For a user-defined function, variables, linearity, jacobians and JDot are attached to the variables currently registered after any history of additions, removals and resizes; ill-formed matrices, vectors, removals or overlapping variables are refused.",
  ["inputs", "histories"], "all constructions and edit histories of functions over overlapping, derived and manifold variables",
  "Tests use a couple of constructors with disjoint full variables; parts, repetitions, manifold layouts and removals matter in all formulations.",
  ["src/function/BasicLinearFunction.cpp", "include/tvm/function/BasicLinearFunction.h", "src/function/LinearFunction.cpp", "src/function/IdentityFunction.cpp", "src/function/Function.cpp", "src/internal/FirstOrderProvider.cpp", "include/tvm/utils/internal/MapWithVariableAsKey.h"],
  [("accumulation of terms", "include/tvm/function/BasicLinearFunction.h: add"), ("updates", "src/function/LinearFunction.cpp: updateValue, updateVelocity"), ("variable edits", "src/internal/FirstOrderProvider.cpp: addVariable, removeVariable, resize"), ("slicing", "include/tvm/utils/internal/MapWithVariableAsKey.h: at")],
  "random constructions, edits and evaluations compared to a per-coordinate dense model",
  "Exploration: tens of thousands of random functions, each with a random history.")

P("F02", "Linear constraints report exactly the matrices and bounds they were given",
  "For any type, right-hand-side convention and construction, a linear constraint exposes the jacobians and value of sum A_i x_i (terms on a same variable summed) and, in the outputs that its type and convention define, the bounds last given. "
  "The other bound outputs are disabled and cannot be requested; construction and changes with incoherent sizes, type or convention are refused and leave the constraint as it was.",
  ["inputs", "configurations", "histories"], "all types, conventions, constructors, variables and sequences of changes",
  "There are 12 type/convention pairs, 10 constructors and 4 setters; tests cover a handful of pairs.",
  ["src/constraint/BasicLinearConstraint.cpp", "include/tvm/constraint/BasicLinearConstraint.h", "src/constraint/Constraint.cpp", "src/constraint/LinearConstraint.cpp"],
  [("construction", "src/constraint/BasicLinearConstraint.cpp: constructors, add"), ("bounds", "src/constraint/BasicLinearConstraint.cpp: b, l, u"), ("enabled outputs", "src/constraint/Constraint.cpp: constructor")],
  "random constraints and change histories compared to a dense model",
  "Exploration: tens of thousands of random constraints.")

P("P02", "Properties claimed by functions and constraints are true of their matrices",
  "Whenever the jacobian (or any part of it) or the constant term of a function, constraint or affine expression claims to be zero, identity, diagonal, triangular, a multiple of identity, invertible, symmetric or (semi)definite, the actual matrix has this property. "
  "This remains so after matrices or values are changed and when terms on a same variable are accumulated.",
  ["inputs", "histories"], "all functions, constraints and expressions over overlapping variables and all changes made to them",
  "Solvers and substitutions skip work based on these claims, so an untruthful one silently corrupts a problem for particular shapes only.",
  ["include/tvm/function/BasicLinearFunction.h", "src/function/BasicLinearFunction.cpp", "src/constraint/BasicLinearConstraint.cpp", "src/function/IdentityFunction.cpp", "include/tvm/internal/MatrixWithProperties.h"],
  [("claims on terms", "include/tvm/function/BasicLinearFunction.h: add"), ("parts", "include/tvm/internal/FirstOrderProvider.h: slice_matrix")],
  "an oracle numerically testing each claimed property on every matrix exposed in random histories",
  "Exploration: tens of thousands of random objects; counts of non-trivial claims are reported.")

P("A01", "Affine expressions mean what the same expression means on vectors",
  "A function built from any supported expression of variables, matrices, vectors and scalars (sums, differences, negations, scalings, products, in any nesting, stored or not before use) has the value, velocity and constant term obtained by evaluating this expression on the values of the variables, including when the variables are equal or overlap. "
  "It depends on each coordinate through exactly one variable.",
  ["programs", "inputs"], "all expression shapes and overlap patterns of the variables",
  "Each operator combination is a different template instantiation; tests instantiate a dozen without overlap.",
  ["include/tvm/utils/AffineExpr.h", "include/tvm/utils/internal/AffineExprOperators.h", "include/tvm/utils/internal/AffineExprDetail.h", "include/tvm/function/BasicLinearFunction.h"],
  [("operators", "include/tvm/utils/internal/AffineExprOperators.h"), ("conversion", "include/tvm/function/BasicLinearFunction.h: BasicLinearFunction(AffineExpr)")],
  "each expression is instantiated twice, on variables and on plain vectors, and the results compared for random data, under AddressSanitizer",
  "Exploration: 62 expression forms times random sizes, values and overlap patterns.")

P("T01", "Task dynamics deliver the value of their documented formula",
  "For any function, right-hand side and type, after an update the value of a task dynamics (none, constant, proportional, proportional-derivative with any kind of gains, one step to zero, reference, velocity damper, and any clamping or feed-forward around them) is the one its formula gives for the current value and velocity of the function, the current parameters and, for automatic damping, the documented activation history. "
  "Each task uses its own parameters; changing them takes effect at the next update, and ill-sized or out-of-range parameters are refused.",
  ["inputs", "configurations", "histories"], "all dynamics, gain kinds, compositions, functions and sequences of states",
  "Formulas are tested for a few scalar examples; gains by kind, compositions and histories multiply the cases.",
  ["src/task_dynamics/*.cpp", "include/tvm/task_dynamics/*.h"],
  [("formulas", "src/task_dynamics/*.cpp: Impl::updateValue"), ("compositions", "include/tvm/task_dynamics/Clamped.h, FeedForward.h"), ("dependencies", "src/task_dynamics/TaskDynamicsImpl.cpp: setFunction")],
  "random dynamics updated through graphs from caches poisoned with NaN, compared to independent formulas",
  "Exploration: tens of thousands of random dynamics and histories.")

P("T02", "Task dynamics guarantee the behaviour they are meant for",
  "With a velocity damper, no command compatible with the bounds brings the error closer to its bound than the safety distance (for damping compatible with the time step), and some command always is compatible. "
  "A clamped dynamics stays in its bounds, keeps the direction of the unclamped one and changes it only as needed; one step to zero reaches the target in one step; proportional gains decrease the error and the critically damped version has kv^2 = 4 kp.",
  ["histories", "inputs"], "all closed-loop trajectories, gains and bounds",
  "These are properties of trajectories; unit tests look at single evaluations.",
  ["src/task_dynamics/VelocityDamper.cpp", "include/tvm/task_dynamics/Clamped.h", "src/task_dynamics/OneStepToZero.cpp", "src/task_dynamics/ProportionalDerivative.cpp", "src/constraint/LinearizedTaskConstraint.cpp"],
  [("damper", "src/task_dynamics/VelocityDamper.cpp: updateValue"), ("clamping", "include/tvm/task_dynamics/Clamped.h: updateValue"), ("critical damping", "src/task_dynamics/ProportionalDerivative.cpp: gains")],
  "closed-loop simulation with adversarial commands and invariants monitored at each step",
  "Exploration: tens of thousands of simulated trajectories of up to 60 steps.")

P("F03", "A task becomes exactly the linear constraint its dynamics prescribes",
  "The linear constraint derived from a task has, as variables, the derivatives of the function's variables of the order of the dynamics, as matrices the function's jacobians (also for parts of variables), as type the one of the task, and as bound(s) the value of the dynamics (of each side for double-sided tasks), minus the normal acceleration for second order. "
  "All this holds after any update graph containing the corresponding output is executed; order-zero dynamics are refused on functions that are not linear.",
  ["inputs", "configurations"], "all functions, types, dynamics, bounds and requested outputs",
  "Each (order, type) pair is a different update function and set of dependencies; a missing dependency shows only with the right subset of outputs.",
  ["src/constraint/LinearizedTaskConstraint.cpp", "include/tvm/constraint/internal/LinearizedTaskConstraint.h", "src/Task.cpp"],
  [("bounds", "src/constraint/LinearizedTaskConstraint.cpp: update*Kin, update*Dyn"), ("dependencies", "src/constraint/LinearizedTaskConstraint.cpp: constructor"), ("matrices", "src/constraint/LinearizedTaskConstraint.cpp: jacobian")],
  "random tasks on a quadratic function with known derivatives, outputs obtained by separate graphs from NaN-poisoned caches, compared to the formula",
  "Exploration: tens of thousands of random tasks.")

P("A02", "Task expressions mean what they read as",
  "An expression f == b, f >= l, f <= u, l <= f <= u (in any order of writing), with f a variable, an expression or a function and scalar or vector bounds, yields a task with this function, this type and exactly these bounds. "
  "Explicit constructors do the same; ill-sized bounds, a number of bounds that does not fit the type, and functions to non-Euclidean spaces are refused.",
  ["programs", "inputs"], "all operators, writing orders, operand kinds and bound kinds",
  "There are dozens of overloads, each a possible swap of sides; tests use a few.",
  ["include/tvm/utils/ProtoTask.h", "include/tvm/utils/internal/ProtoTaskDetails.h", "src/Task.cpp", "include/tvm/Task.h"],
  [("operators", "include/tvm/utils/ProtoTask.h"), ("construction", "src/Task.cpp")],
  "all operator forms instantiated on random operands; type, bounds and function value of the resulting task compared to the ones written",
  "Exploration: every operator, side, operand and bound kind, tens of thousands of random instances.")

P("S01", "What is copied to a solver means what the constraint means",
  "For every type and right-hand-side convention of a linear constraint and of a target, every target range, variable layout, weight and anisotropic weight, the rows written in the target, read with its conventions, stand for exactly the constraint scaled by the square roots of its weights; nothing outside of the rows and of the target is written. "
  "Successive bounds on a variable leave their intersection in the target, and combinations of conventions, sizes, weights or bound properties that cannot be represented are refused by an exception.",
  ["inputs", "configurations"], "all pairs of conventions, matrix structures, layouts, weights, sequences of bounds",
  "Tests use one size per pair of conventions, without weights on most of them and with scalar bounds.",
  ["src/scheme/Assignment.cpp", "src/scheme/AssignmentTarget.cpp", "include/tvm/scheme/internal/Assignment.hpp", "include/tvm/scheme/internal/CompiledAssignment.h", "src/scheme/helpers.cpp"],
  [("conventions", "src/scheme/Assignment.cpp: build, checkTarget"), ("bounds", "src/scheme/Assignment.cpp: addBound, addBounds"), ("kernels", "include/tvm/scheme/internal/CompiledAssignment.h")],
  "direct use of assignments; rows read back with the conventions of the target are compared with the constraint",
  "Exploration: tens of thousands of random configurations per run under ASan/UBSan.")

P("S02", "Copies to a solver follow every change of source, target and layout",
  "After any history of changes of the data of the constraint, of the memory or rows of the target, of the order or set of variables, of the allowed weights, and of moves of the assignment object, running an assignment writes what the current constraint means in the current target, and never in a previous one. "
  "A change of weight that cannot be represented is refused by an exception.",
  ["inputs", "histories"], "all histories of updates of assignments and bounds",
  "Tests perform one update of each kind at most.",
  ["src/scheme/Assignment.cpp", "src/scheme/MatrixAssignment.cpp", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h", "src/scheme/AssignmentTarget.cpp"],
  [("updates", "src/scheme/Assignment.cpp: onUpdatedTarget, onUpdatedMapping, onUpdateWeights"), ("mapping", "src/scheme/MatrixAssignment.cpp")],
  "random histories of updates, each followed by a run whose result is compared with the current constraint; sentinels and ASan watch previous targets",
  "Exploration: thousands of random histories per run under ASan/UBSan.")

P("S03", "The problem handed to the least-squares solver is the one the tasks stand for",
  "For any set of tasks (all types, dynamics, requirements) added to a control problem, the weighted least-squares scheme gives the solver, in the solver's own conventions, exactly the priority-0 tasks as constraints or bounds, with strict bounds intersected when several act on the same variables, and the other tasks as rows of the objective with the product of their weights; nothing is missing, duplicated, or put on the wrong variables. "
  "When the solver succeeds, solving reports success and each variable holds its part of the solver's solution, so the solution satisfies the constraints and minimises the weighted objective; when there is no feasible point, solving reports failure.",
  ["inputs", "configurations", "programs"], "all sets of tasks over shared, derived and partial variables, all solver conventions (matrix layouts, inequality types, right-hand-side signs), all weights",
  "No solver backend is available to the test-suite, so no test ever solves a problem; the conversions depend on the product of task type, solver convention, matrix property and overlap.",
  ["src/scheme/WeightedLeastSquares.cpp", "src/scheme/internal/Assignment.cpp", "include/tvm/scheme/internal/CompiledAssignment.h", "src/solver/LeastSquareSolver.cpp", "src/ControlProblem.cpp", "src/LinearizedControlProblem.cpp"],
  [("problem processing", "src/scheme/WeightedLeastSquares.cpp: processProblem"), ("assembly", "src/scheme/internal/Assignment.cpp"), ("solver side", "src/solver/LeastSquareSolver.cpp")],
  "reference solvers of all conventions record the problem they receive, which is compared with an independent assembly of the tasks, and solve it so that the resulting variables are checked for feasibility and optimality",
  "Exploration: thousands of random problems; the reference solver and the independent assembly are trusted.")

P("S04", "A problem edited between solves behaves as one built from scratch",
  "After any history of adding, removing and re-adding tasks, changing scalar or anisotropic weights, and changing task data, interleaved with solves by one or several schemes, the next solve works on exactly the current tasks with their current weights and data, as if the problem had just been built. "
  "Nothing of removed tasks remains and no task is lost.",
  ["histories"], "all edit histories between solves by one or several schemes",
  "Incremental updates (resizing, re-targeting, partial rebuild) only go wrong after particular successions of edits; no test solves at all.",
  ["src/scheme/WeightedLeastSquares.cpp", "src/solver/LeastSquareSolver.cpp", "src/scheme/internal/Assignment.cpp", "src/scheme/ProblemComputationData.cpp", "src/scheme/internal/ProblemDefinitionEvent.cpp", "src/LinearizedControlProblem.cpp"],
  [("event processing", "src/scheme/WeightedLeastSquares.cpp: updateComputationData"), ("in-place edition", "src/solver/LeastSquareSolver.cpp: process"), ("retargeting", "src/scheme/internal/Assignment.cpp: onUpdatedTarget, onUpdatedMapping, onUpdateWeights")],
  "random edit histories; after each solve the problem received by the reference solver is compared with an independent assembly of the current tasks",
  "Exploration: thousands of random histories of up to a dozen edits.")

P("S05", "Substitution hints do not change the solution",
  "Hinting that some equality tasks can be used to eliminate variables (any number of hints, through identity, diagonal, generic or rank-deficient matrices, depending on each other or not, on whole variables or parts) leaves the solution of a problem the same: same feasibility, all tasks including the hinted ones satisfied, same optimum, and the eliminated variables get their value. "
  "This stays true when data change, and when hints and tasks are added or removed between solves; a removed hint is no longer used, and the removal of a task that a hint needs is either done with the hint or refused without any effect.",
  ["histories", "inputs", "configurations"], "all problems, hints, and histories of edits and data changes",
  "Elimination involves all the other tasks, null-space variables, remaining equations and cached data; no test solves a problem with hints.",
  ["src/hint/*.cpp", "include/tvm/hint/*.h", "src/scheme/Assignment.cpp", "src/scheme/WeightedLeastSquares.cpp", "src/LinearizedControlProblem.cpp"],
  [("elimination", "src/hint/SubstitutionUnit.cpp: update"), ("use in the problem", "src/scheme/Assignment.cpp: add*SubstitutionAssignments"), ("life cycle", "src/hint/Substitutions.cpp: add, remove, finalize; src/LinearizedControlProblem.cpp")],
  "random problems with hints solved through reference solvers, solution compared with the reference solution of the same tasks without hints",
  "Exploration: thousands of random problems and histories.")

P("S06", "Substitutions describe exactly the solutions of their equations",
  "After an update, the substituted variables are given as affine functions of the remaining and of the additional variables which, together with the remaining equations, describe exactly the set of solutions of the original equations: every point described is a solution and there are as many degrees of freedom. "
  "Exactly the requested variables are substituted, what is claimed zero is zero, substituted values and the variables replacing a variable are consistent with these functions; this holds after any change of the equations that keeps ranks and any addition or removal of substitutions (the general calculator refuses a changed rank).",
  ["inputs", "histories"], "all sets of interdependent substitutions, ranks, calculators, conventions, changes of data",
  "Tests check a handful of fixed systems; dependence patterns (chains, cycles, shared and partial variables) and rank deficiency combine freely.",
  ["src/hint/SubstitutionUnit.cpp", "src/hint/Substitutions.cpp", "src/hint/SubstitutionCalculatorImpl.cpp", "src/hint/GenericCalculator.cpp", "src/hint/DiagonalCalculator.cpp", "src/hint/Substitution.cpp"],
  [("calculators", "src/hint/GenericCalculator.cpp, DiagonalCalculator.cpp"), ("grouping and order", "src/hint/Substitutions.cpp: finalize"), ("propagation", "src/hint/SubstitutionUnit.cpp: update")],
  "random systems of substitutions; the affine set they describe is compared (points and dimension) with the solution set computed densely",
  "Exploration: thousands of random systems with changes; well-conditioned data only, as ranks are declared by the user.")

P("S07", "What a scheme cannot honour is refused, and recovered from",
  "A task whose requirements a scheme cannot honour (inequality or norm it does not handle at this level, anisotropic weight of wrong size) makes every resolution throw, without calling the solver or changing the variables, as long as it is not removed or corrected; a task that cannot be linearized is refused when added, leaving the problem unchanged. "
  "The exceptions thrown by a function or a solver reach the caller, and the failure of a solver is returned. "
  "Once the cause has disappeared, the next resolution is right, including the other edits made meanwhile.",
  ["histories", "fault_sequences", "configurations"], "all problems, offending tasks, failures, and edits before, between and after them",
  "An exception in the middle of an incremental update leaves partially updated data; tests have only one-shot refusals.",
  ["src/scheme/WeightedLeastSquares.cpp", "src/scheme/HierarchicalLeastSquares.cpp", "src/LinearizedControlProblem.cpp", "include/tvm/scheme/internal/SchemeAbilities.h"],
  [("abilities", "include/tvm/scheme/internal/SchemeAbilities.h: check"), ("interrupted updates", "src/scheme/WeightedLeastSquares.cpp, HierarchicalLeastSquares.cpp: updateComputationData_"), ("refused addition", "src/LinearizedControlProblem.cpp: add")],
  "fault injection (offending requirements, throwing functions and solvers, failing solvers) in random histories; outcome of each resolution and the problem received by the solver are checked",
  "Exploration: thousands of random histories; requirements without effect at a level (weights of priority 0) are not covered.")

P("S10", "Hierarchical schemes hand each level to the solver",
  "HierarchicalLeastSquares gives its solver, at each priority level, exactly the tasks of this level (rows multiplied by the square root of their weights), the bounds of level 0 as bounds or rows, and nothing else; the outcome of the solver is the one returned and becomes the values of the variables. "
  "This holds after any edit of the problem (tasks, weights, priorities, substitutions) and with damping, which only adds a last level. With substitution hints the optimum of each level is the one obtained without.",
  ["histories", "inputs", "configurations"], "all hierarchies of tasks of all types, edits and hints",
  "Levels, kinds of right-hand sides, weights and edits combine freely; no test builds a hierarchical scheme as no solver is available without third-party code.",
  ["src/scheme/HierarchicalLeastSquares.cpp", "src/solver/HierarchicalLeastSquareSolver.cpp"],
  [("levels", "src/scheme/HierarchicalLeastSquares.cpp: processProblem"), ("edits", "src/scheme/HierarchicalLeastSquares.cpp: updateComputationData_"), ("build", "src/solver/HierarchicalLeastSquareSolver.cpp")],
  "random hierarchies and edits solved through reference hierarchical solvers, each level received compared row by row with the tasks",
  "Exploration: thousands of random problems and histories.")

P("W01", "Solver wrappers hand their library the problem they were given",
  "Through the wrappers of QLD, Quadprog, LSSOL and LexLS (plain and hierarchical), the optimization library receives, in its own conventions and with the sizes it was told, exactly the tasks of the problem: objective (up to the documented regularization), constraints and bounds, whatever the options (Cholesky, warm start, verbosity, feasible first level, damping). "
  "This holds after any edit of the problem, although the libraries overwrite some of their data, and the result and status of the library are the ones returned. The options given by the user reach the library, the others have their documented default.",
  ["histories", "inputs", "configurations"], "all problems, edits and options, through each wrapper",
  "The wrappers are not even compiled where the libraries are absent, and what they hand depends on the option, on the number of objective rows, on the bounds and on what the previous resolution left in the matrices.",
  ["src/solver/QLDLeastSquareSolver.cpp", "src/solver/QuadprogLeastSquareSolver.cpp", "src/solver/LSSOLLeastSquareSolver.cpp", "src/solver/LexLSLeastSquareSolver.cpp", "src/solver/LexLSHierarchicalLeastSquareSolver.cpp"],
  [("conversion to a quadratic cost", "src/solver/QuadprogLeastSquareSolver.cpp: postAssignmentProcess_"), ("overwritten data", "src/solver/LSSOLLeastSquareSolver.cpp: preAssignmentProcess_"), ("levels", "src/solver/LexLSHierarchicalLeastSquareSolver.cpp: resize_"), ("options", "include/tvm/solver/internal/Option.h")],
  "the real wrappers compiled against stand-ins of the libraries that check sizes, record the problem as the library would understand it and solve it; problem, minimum norm and result compared with the tasks over random histories",
  "Exploration, with the conventions of the libraries as documented: the libraries themselves are not installed.")

P("S09", "Problems and schemes are independent of each other",
  "When several problems share tasks or variables and are solved by several schemes (of the same kind or not, with their own options and big number), each resolution of a problem by a scheme solves exactly this problem as it is at this time. "
  "This does not depend on the resolutions and edits of the other problems, on the other schemes, nor on the order in which problems and schemes are created and destroyed. "
  "A change of the requirements of a shared task is taken into account by each of the problems it belongs to.",
  ["histories", "configurations"], "all histories of several problems and schemes sharing tasks",
  "Computation data, callbacks and settings are kept per problem and per scheme; tests use one problem and one scheme at a time.",
  ["src/ControlProblem.cpp", "include/tvm/ControlProblem.h", "src/LinearizedControlProblem.cpp", "include/tvm/scheme/internal/helpers.hpp", "src/scheme/*.cpp"],
  [("data per problem and scheme", "include/tvm/scheme/internal/helpers.hpp: getComputationData"), ("callbacks", "src/ControlProblem.cpp: addCallBackToTask"), ("big number", "src/scheme/Assignment.cpp: big_")],
  "random histories over up to four problems and four schemes; each resolution compared with the tasks of its problem",
  "Exploration: thousands of random histories.")

P("M01", "Resolutions respect the prohibition of Eigen allocations",
  "In debug builds where Eigen allocations are forbidden by the user, a resolution allocates Eigen memory only while it builds or rebuilds its data (after edits), and when variables are eliminated by substitutions; otherwise updating the functions and task dynamics of the library, filling the solver data and reading the solution do not allocate. "
  "After a resolution, and after any exception, the permission is what it was before, and the saved permissions are balanced.",
  ["histories", "fault_sequences"], "all histories of resolutions, edits and exceptions",
  "Real-time use relies on it; the tests that check it need third-party solvers and do not look at the permission afterwards.",
  ["include/tvm/utils/memoryChecks.h", "src/utils/memoryChecks.cpp", "include/tvm/scheme/abstract/ResolutionScheme.h", "src/hint/SubstitutionUnit.cpp"],
  [("build phases", "include/tvm/scheme/abstract/ResolutionScheme.h: createComputationData, updateComputationData"), ("permission", "src/utils/memoryChecks.cpp")],
  "Eigen's allocation guard is armed around each resolution of random histories with faults; permission and balance checked after each",
  "Exploration: thousands of random histories; only Eigen allocations are observed.")

P("R01", "Solving requirements keep what they are given",
  "SolvingRequirements built from any subset of arguments in any order hold the given values and the documented defaults for the others, and are default exactly when not given; copies and conversions between lightness kinds keep values. "
  "A change through any setter or assignment is visible at once and runs the callbacks registered on the changed requirement, and an invalid value (negative priority, level or weight) is refused with an exception and changes nothing.",
  ["histories", "inputs"], "all combinations of arguments, copies, conversions and changes",
  "Orders of arguments, kinds and changes combine freely; tests check a few constructions.",
  ["include/tvm/requirements/*.h", "include/tvm/requirements/abstract/SingleSolvingRequirement.h", "src/requirements/*.cpp"],
  [("values and callbacks", "include/tvm/requirements/abstract/SingleSolvingRequirement.h"), ("arguments", "include/tvm/requirements/SolvingRequirements.h")],
  "random constructions, copies and changes compared with a model, callbacks counted",
  "Exploration: thousands of random histories.")

P("E01", "Callbacks run as long as their token lives",
  "A run of a CallbackManager calls once, in the order of registration, each callback whose token is alive, whatever moves of tokens happened since; no callback runs after its token was destroyed, overwritten or unregistered, including when this happens in a callback of the same run. "
  "Callbacks can register, unregister, run again or throw. Paired tokens always agree on whether and with whom they are paired, through moves and destructions in any order, including of the manager.",
  ["histories"], "all histories of registrations, moves, destructions and runs",
  "Problems and requirements rely on it with lifetimes decided by the user; tests cover one straight history.",
  ["include/tvm/internal/CallbackManager.h", "include/tvm/internal/PairElementToken.h"],
  [("run", "include/tvm/internal/CallbackManager.h: run, unregisterCallback"), ("pairing", "include/tvm/internal/PairElementToken.h")],
  "random histories with callbacks acting on their own manager, each run compared with a model of the callbacks alive",
  "Exploration: thousands of random histories.")

P("E02", "Events reach the living listeners",
  "A notification of a source is received, with its type and source, by each living listener registered for this type, once per registration and in this order, and by nobody else; listeners are not kept alive by sources. "
  "This holds when listeners register, are destroyed or notify in reaction to an event.",
  ["histories"], "all histories of registrations, notifications and destructions",
  "Lifetimes of listeners and reactions combine freely; no test uses events.",
  ["src/event/Source.cpp", "src/event/Listener.cpp", "include/tvm/event/Source.h"],
  [("notification", "src/event/Source.cpp: notify"), ("weak registration", "include/tvm/event/Source.h: registrations_")],
  "random histories with listeners acting in reaction, receptions compared with a model",
  "Exploration: thousands of random histories.")

P("U01", "Functions evaluated without update graph",
  "Each output of a function asked through UpdatelessFunction is the one of the function at the values (and velocities) given, whatever the form of the call (one vector, one per variable, or by variables), the outputs asked before and what was done to the variables and other graphs in between; variables that are not mentioned keep their value. "
  "A call with a wrong number, size or variable, or for a disabled output, throws an exception that says why.",
  ["inputs", "histories"], "all functions, forms of calls and sequences of calls",
  "Forms of calls, outputs and shared inputs combine freely; tests make a few calls on one function.",
  ["include/tvm/utils/UpdatelessFunction.h", "src/utils/UpdatelessFunction.cpp"],
  [("graphs per output", "src/utils/UpdatelessFunction.cpp: UpdatelessFunction"), ("forms of calls", "include/tvm/utils/UpdatelessFunction.h: parseValues")],
  "random functions with shared inputs and random calls, outputs compared with closed forms",
  "Exploration: thousands of random sequences.")

P("U02", "Checks of functions give the right verdict",
  "checkJacobian, checkVelocity, checkNormalAcceleration and checkFunction accept a function whose outputs are consistent (linear or not, with one or several variables) and refuse one with an error in any entry of the output checked that is well above the precision asked, as soon as one configuration tested shows it. "
  "All the configurations and numbers of samples asked are tested; nothing is printed when not verbose; missing outputs and unsupported manifolds are refused with an exception.",
  ["inputs", "configurations"], "all functions, errors and options",
  "The verdict depends on where the error is; tests use one wrong function with a single variable.",
  ["include/tvm/utils/checkFunction.h", "src/utils/checkFunction.cpp"],
  [("comparison by columns", "src/utils/checkFunction.cpp: checkJacobian"), ("finite differences", "src/utils/checkFunction.cpp: checkNormalAcceleration"), ("configurations", "src/utils/checkFunction.cpp: getFromConfigOrRandom")],
  "random functions, right or with a planted error, verdict and visited configurations compared with what is known",
  "Exploration: thousands of random functions; errors and precision are kept well apart.")

P("D01", "Log and probes describe the graph that runs",
  "For living nodes, the sub-graph of a call graph or of an output given by the log is exactly the set of outputs and updates it depends on, the updates being those executed, after any addition, removal of inputs and clearing; the dot description has exactly the dependencies declared and highlights this sub-graph. "
  "Probes list the current value of each output of the sub-graph with a known accessor, and followUp gives the tree of dependencies cut at the outputs that do not pass the test. Nothing is logged when disabled.",
  ["programs", "histories"], "all graphs and histories of what is asked to them",
  "Graphs and edits combine freely; the test checks a few numbers on one problem.",
  ["src/graph/Log.cpp", "src/graph/Logger.cpp", "include/tvm/graph/internal/Logger.h", "src/diagnostic/GraphProbe.cpp", "src/diagnostic/details.cpp", "include/tvm/diagnostic/GraphProbe.h"],
  [("closure", "src/graph/Log.cpp: followUpDependency"), ("probing", "src/diagnostic/GraphProbe.cpp: followUp, addOutputVal"), ("default accessors", "src/diagnostic/details.cpp: registerDefault")],
  "random graphs and edits, and random problems; descriptions compared with the declared dependencies, the executed updates and the values read directly",
  "Exploration: thousands of random graphs; addresses reused by new nodes are out of the property (the log identifies nodes by address).")

P("M02", "What is not used anymore is released, whatever the order of destruction",
  "A task, its function and the constraint made of it are released as soon as neither the user nor a problem uses them anymore, at the latest at the next resolution by each scheme that used them (or with the problem). "
  "Problems, schemes, tasks and variables can be dropped in any order, and when all are gone all their memory is released, including the one of the solvers and after edits, substitutions, exceptions and failures.",
  ["histories"], "all histories of creations, edits, resolutions and destructions of objects sharing tasks and variables",
  "Long-running controllers add and remove tasks all the time; a kept reference has no visible effect in a test.",
  ["include/tvm/ControlProblem.h", "src/ControlProblem.cpp", "src/LinearizedControlProblem.cpp", "src/CallGraph.cpp", "include/tvm/scheme/internal/ResolutionSchemeBase.h", "include/tvm/scheme/WeightedLeastSquares.h"],
  [("removal", "src/ControlProblem.cpp: remove; src/LinearizedControlProblem.cpp: remove"), ("computation data", "src/scheme/*.cpp: processProblem")],
  "random histories; weak references decide release against a model of who uses what, and the count of allocated bytes around whole workloads decides leaks",
  "Exploration: thousands of histories and workloads per run.")

P("N01", "Independent problems can be built and solved in different threads",
  "Threads that use different problems, schemes, tasks and variables (none shared) do not interfere: there is no data race between them, and each gets the results it would get alone, including identifiers, mappings and big numbers, with the log of the graphs enabled or not. "
  "Builds with the run-time check of Eigen allocations, a switch global to the process, are not concerned.",
  ["schedules", "histories"], "all interleavings of threads each running any history on its own objects",
  "The static data of the library is hidden to users; tests are single-threaded.",
  ["include/tvm/internal/IdProvider.h", "include/tvm/internal/ObjWithId.h", "include/tvm/VariableVector.h", "src/VariableVector.cpp", "include/tvm/scheme/internal/Assignment.h", "include/tvm/graph/internal/Logger.h", "src/graph/Logger.cpp"],
  [("identifiers", "include/tvm/internal/IdProvider.h: makeId"), ("stamps", "src/VariableVector.cpp: getNewStamp"), ("big number", "src/scheme/Assignment.cpp: big"), ("log", "include/tvm/graph/internal/Logger.h")],
  "random workloads run by two to four threads under ThreadSanitizer (instead of AddressSanitizer), with the oracles of the single-threaded properties",
  "Exploration: thousands of groups of concurrent workloads; races are found by happens-before analysis, not only when they do harm.")

P("K01", "Spaces, ranges, clocks and planes keep to their definitions",
  "Sizes, types, comparisons and products of spaces are those of their definition (products add sizes, are associative, and are Euclidean when both factors are), and containment, intersection and shifts of ranges are those of sets of integers. "
  "A clock counts its ticks with a constant step; a plane has the normal, offset, point and derivatives last given, its offset following its point. "
  "The update of a reader of a plane runs after the ones of the provider of the outputs it reads, and runs only these.",
  ["inputs", "histories"], "all spaces and products, ranges, and histories of moves",
  "These small objects are used everywhere with a few values in tests.",
  ["include/tvm/Space.h", "src/Space.cpp", "include/tvm/Range.h", "src/Clock.cpp", "include/tvm/geometry/Plane.h", "src/geometry/Plane.cpp"],
  [("spaces", "include/tvm/Space.h: operator*, operator=="), ("planes", "src/geometry/Plane.cpp: position; include/tvm/geometry/Plane.h: setIntegrator")],
  "random objects and histories compared with reference definitions",
  "Exploration: tens of thousands of random cases.")

P("S08", "Elementary assignments compute what their kind says",
  "Running a compiled assignment applies its operation (copy, addition, subtraction, minimum or maximum) to exactly the coefficients of its target, with the product of its weight (none, opposite, scalar or diagonal), its multiplier (identity, general or inverse of a diagonal, on the right for matrices and on the left for vectors) and its source (matrix or vector, constant, zero), read at the time of the run. "
  "This holds after any change of source or target, for copies as for the original, and without Eigen allocation; changing the source for one of another kind is refused.",
  ["inputs", "configurations", "histories"], "all kinds, shapes (even empty), strides, values and histories of changes and copies",
  "There are 190 kinds; tests run each once, on square matrices of ones, without any change.",
  ["include/tvm/scheme/internal/CompiledAssignment.h", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h"],
  [("kernels", "include/tvm/scheme/internal/CompiledAssignment.h: run, assign, applyWeightMult, applyMatrixMult"), ("erasure", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h: make, copy, from, to")],
  "histories on every kind of assignment between random blocks, the whole memory around the target being compared with the definition after each run",
  "Exploration: tens of thousands of random assignments, all kinds many times each.")

P("K02", "Addresses and magnitudes of matrix elements are found exactly",
  "An address is reported as belonging to a matrix, map, block or reference exactly when it is the address of one of its coefficients, whatever the strides. "
  "A matrix is reported as having an element of absolute value in a range exactly when it has one, limits included.",
  ["inputs"], "all matrices, blocks and strides, all addresses",
  "Diagnosing where a value comes from depends on it; tests try one address per matrix.",
  ["include/tvm/diagnostic/matrix.h"], [("addresses", "include/tvm/diagnostic/matrix.h: isInMatrix")],
  "all addresses around random blocks of one buffer, compared with the addresses of the coefficients",
  "Exploration: tens of thousands of random matrices.")
P("K03", "A control problem contains exactly what was added to it and not removed",
  "After any history of additions and removals of tasks and substitutions, a problem lists its tasks in order of addition, gives for each of them, and only for them, its constraint and requirements, and its variables are exactly those of its tasks. "
  "An update evaluates once everything its tasks need and nothing else, after which each constraint has the matrices and bounds of its task for the current values. "
  "Removing a task removes the substitution that relies on it or is refused without any change, adding an impossible task is refused without any change, and a removed task is not kept alive by the problem.",
  ["histories", "inputs"], "all histories of additions, removals, substitutions and updates, for all tasks",
  "Every scheme reads the problem through these lists; tests add a few tasks and remove one.",
  ["src/LinearizedControlProblem.cpp", "src/ControlProblem.cpp", "include/tvm/LinearizedControlProblem.h", "include/tvm/ControlProblem.h"],
  [("books", "src/LinearizedControlProblem.cpp: add, remove, constraints, variables"), ("updates", "src/ControlProblem.cpp: update, Updater"), ("constraints_read", "src/constraint/LinearizedTaskConstraint.cpp")],
  "a model of the content of each problem compared with all the accessors after each operation; functions counting their evaluations and returning NaN until evaluated; constraints compared with the relation each task stands for",
  "Exploration: thousands of random histories with up to four problems.")


P("N02", "Malformed arguments are refused, well-formed ones are not",
  "Public operations on variables and vectors of variables, linear functions, constraints, tasks, task dynamics, solving requirements, substitutions and their calculators, level abilities, matrix properties and updateless functions throw when their arguments are malformed (wrong size or number, index out of range, foreign, intersecting or manifold variable, null pointer, order, kind of bound or operator that does not fit). "
  "They do so only then: every well-formed call is accepted. A refused call leaves what could be observed before it unchanged.",
  ["inputs", "configurations"], "all well-formed and malformed arguments of these operations",
  "The sizes, indices and kinds that can be wrong are many and depend on each other; accepting some of them corrupts memory or the problem much later, far from the mistake.",
  ["src/Variable.cpp", "src/VariableVector.cpp", "src/Task.cpp", "src/constraint/*.cpp", "src/function/BasicLinearFunction.cpp", "src/function/IdentityFunction.cpp", "include/tvm/requirements/*.h", "src/hint/*.cpp", "src/task_dynamics/*.cpp", "src/scheme/SchemeAbilities.cpp", "include/tvm/utils/UpdatelessFunction.h"],
  [("sizes of constraints", "src/constraint/BasicLinearConstraint.cpp"), ("tasks", "src/Task.cpp"), ("weights", "include/tvm/requirements/abstract/SingleSolvingRequirement.h"), ("substitutions", "src/hint/Substitution.cpp: check"), ("references", "src/task_dynamics/Reference.cpp: setReference")],
  "generated well-formed calls and their malformed variants under AddressSanitizer and UBSan; the exception, or its absence, and the state before and after are compared with what the arguments call for",
  "Exploration: thousands of groups of calls per run.")

P("B01", "Robot frames, functions and contacts agree with the motion of the robot",
  "For any robot and motion, the velocity of a frame is the derivative of its position, in the axes of the world, its normal acceleration that of its velocity at constant joint velocities, and its Jacobian relates them to the velocities of the variables; the same holds for the value, velocity, Jacobian and normal acceleration of the position, orientation, center of mass, posture and convex region functions, for the velocity and Jacobian of collisions and contacts, whatever the bodies, joints and planes, and for each function made by selecting joints. "
  "Values are the documented ones: displacement from the target given or memorized, signed distance, relative motion since the contact. "
  "Names of unknown joints or bodies are refused.",
  ["inputs", "histories"], "all trees of joints, frames, states, targets, planes, hulls, contacts and selections",
  "Every controller of a robot relies on these derivatives; they depend on the geometry of the robot in a way no example settles, and no test exercises them.",
  ["src/robot/*.cpp", "src/Robot.cpp", "include/tvm/robot/*.h"],
  [("frames", "src/robot/Frame.cpp"), ("collisions", "src/robot/CollisionFunction.cpp: updateValue, updateJacobian"), ("posture", "src/robot/PostureFunction.cpp"), ("contacts", "src/robot/Contact.cpp, src/robot/GeometricContactFunction.cpp"), ("selections", "src/robot/JointsSelector.cpp")],
  "numerical differentiation of what the nodes publish along random motions of random robots, on stand-ins of SpaceVecAlg, RBDyn and sch-core; values compared with a geometric reference; memory under AddressSanitizer",
  "Exploration: thousands of random robots; the stand-ins follow the conventions of the absent libraries and poison what they do not initialize.")
P("B02", "The equation of motion holds with the contact forces that are reported",
  "For any robot, state and set of contacts, the value of the dynamic function is the inertial, Coriolis and gravity forces, minus the torques, minus what the reported contact forces produce, and each Jacobian is that of its variable. "
  "The forces in the equation are those of the contacts added and not removed, one per point; contacts of other robots, or already there, are refused without change. "
  "Linearized forces are generated by unit vectors on the friction cone, spread around the normal, with one positivity constraint each.",
  ["inputs", "histories"], "all robots, states, histories of contacts, points, friction coefficients and numbers of generators",
  "A wrong sign, frame or index makes the robot apply forces that do not exist; no test exercises it.",
  ["src/robot/DynamicFunction.cpp", "src/robot/FrictionCone.cpp", "include/tvm/robot/internal/DynamicFunction.h"],
  [("equation", "src/robot/DynamicFunction.cpp: updateJacobian, updateb"), ("contacts", "src/robot/DynamicFunction.cpp: addContact, removeContact, contactForce"), ("cones", "src/robot/FrictionCone.cpp")],
  "the equation of motion computed body by body from Newton-Euler and compared with the function and with the contact forces along histories of contacts, on stand-ins of RBDyn",
  "Exploration: thousands of random histories.")
P("B03", "The state of a robot advances once per tick and matches its variables",
  "However many readers and updates there are, the state of a robot advances by one time step at the first update that follows a tick, and only then, its variables, its configuration and the positions of its bodies being the same state. "
  "Its variables have the sizes of its joints, start from the configuration it is given, and its limits are those it is given, in the order of its degrees of freedom, unlimited where none is given and null for the torque of a free root. "
  "A robot loaded from a file is the one described there, with the initial configuration that was asked for.",
  ["inputs", "histories"], "all robots, limits, initial configurations and histories of ticks and reads",
  "Integrating twice, or limits shifted by a joint, give a robot that moves wrongly with no error; no test exercises it.",
  ["src/Robot.cpp", "src/robot/utils.cpp", "include/tvm/Robot.h"],
  [("integration", "src/Robot.cpp: updateTimeDependency"), ("limits", "src/Robot.cpp: constructor"), ("files", "src/robot/utils.cpp: fromURDF")],
  "histories of ticks and reads compared with one integration step per tick of a reference state; limits and files compared with what was given",
  "Exploration: thousands of random robots.")
