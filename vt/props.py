"""Properties and the harness units that decide them: cases = (quick, thorough)."""
import os

PROPS = {}


def prop(pid, units, rule, **kw):
    PROPS[pid] = dict(units=units, rule=rule, **kw)


def mode(src, name, focus, cases, **kw):
    return dict(src=[src], name=name, flags=["-DFOCUS=%d" % focus], cases=cases, **kw)


prop("V01", [mode("variables.cpp", "v01", 1, (8000, 300000))],
     "random programs of create/derive/primitive/write/duplicate on Euclidean and manifold spaces, every live handle "
     "compared to a reference model after each operation; non-trivial: at least one derivative alive at the end")
prop("V02", [mode("variables.cpp", "v02", 2, (8000, 300000))],
     "random programs dominated by (nested, manifold, derived) sub-variables and writes through any window; non-trivial: "
     "at least one sub-variable alive at the end")
prop("V03", [mode("variables.cpp", "v03", 3, (8000, 300000))],
     "random programs in which handles are dropped in any order and the survivors keep being used under AddressSanitizer")
prop("V04", [mode("vectors.cpp", "v04", 4, (8000, 300000))],
     "random edits (add/remove/index/copy/move/swap/clear) of several vectors of overlapping, manifold and derived "
     "variables compared to an ordered-set model after each edit; non-trivial: a vector held at least two variables")
prop("V05", [mode("vectors.cpp", "v05", 5, (30000, 800000))],
     "random add/remove histories on counted ranges and counted variables; union, split pieces and partition iteration "
     "compared to per-coordinate counts; non-trivial: more than five operations")
prop("G01", [mode("graph.cpp", "g01", 1, (16000, 400000))],
     "random acyclic networks of nodes (inherited outputs/updates, internal, input and direct dependencies); the executed "
     "calls are recorded and compared to the set and partial order the declared dependencies require; non-trivial: at "
     "least four needed updates")
prop("G02", [mode("graph.cpp", "g02", 2, (30000, 800000))],
     "random networks and raw dependency graphs with and without cycles; non-trivial: at least two needed updates / three edges")
prop("G03", [mode("graph.cpp", "g03", 3, (16000, 400000))],
     "random histories of add/re-add/update/execute/clear on one graph, and ownership probes; non-trivial: a plan was executed")
prop("G04", [mode("graph.cpp", "g04", 4, (16000, 400000))],
     "random enabling/disabling/locking of outputs and declarations/requests touching disabled outputs and updates")
prop("P01", [mode("matprops.cpp", "p01", 1, (60000, 1500000))],
     "random matrices of every class with random truthful declarations, combined by random chains of operations; every "
     "claim of every result is compared to the numerical truth; non-trivial: distinct chains of declarations/operations")
prop("F01", [mode("functions.cpp", "f01", 1, (16000, 400000))],
     "random linear functions (all constructors, repeated/overlapping/part variables, changed matrices and values, direct "
     "or graph updates) and random edit histories of user functions, compared to a coordinate model; non-trivial: accepted "
     "constructions with at least two evaluations")
prop("F02", [mode("functions.cpp", "f02", 2, (16000, 400000))],
     "random linear constraints of all types/conventions/constructors, random changes, compared to a coordinate model")
prop("P02", [mode("functions.cpp", "p02", 3, (24000, 500000))],
     "properties claimed by all matrices of random functions, constraints and affine expressions compared to the numerical "
     "content", must_observe=["shapes_claimed", "constants_claimed"])
prop("A01", [mode("functions.cpp", "a01", 4, (24000, 500000))],
     "62 forms of affine expression over random (possibly identical or overlapping) variables, compared to the same "
     "expression evaluated on plain vectors; non-trivial: distinct form and variable overlap pattern")
prop("T01", [mode("taskdyn.cpp", "t01", 1, (16000, 400000))],
     "random task dynamics (all classes, gain kinds, compositions by clamping and feed-forward) on random linear and quadratic "
     "functions of parts of variables, updated through graphs from poisoned caches, with changes of parameters; each value "
     "compared to the documented formula", must_observe=["compositions", "parameter_changes"])
prop("T02", [mode("taskdyn.cpp", "t02", 2, (16000, 400000))],
     "closed-loop simulations (adversarial commands within damper bounds, one-step, convergence, damping ratio, clamping) "
     "with guarantees monitored at every step", must_observe=["damped_steps", "clamped_steps"])
prop("F03", [mode("taskdyn.cpp", "f03", 3, (16000, 400000))],
     "random tasks of all types and dynamics turned into linear constraints; outputs obtained through separate update graphs "
     "from poisoned caches compared to the formula", must_observe=["bounds_checked"])
prop("A02", [mode("taskdyn.cpp", "a02", 4, (16000, 400000))],
     "all operators and right-hand-side kinds on variables, expressions and functions; distinct operator/kind/variables")
prop("S03", [mode("solve.cpp", "s03", 1, (8000, 200000))],
     "random sets of tasks of all types, dynamics, priorities and weights on shared variables and parts of variables, solved "
     "by schemes driving reference solvers of all conventions; the problem received by the solver is compared to the one the "
     "tasks stand for", must_observe=["problems_compared", "solved"])
prop("S04", [mode("solve.cpp", "s04", 2, (6000, 150000))],
     "random histories of edits (add, remove, re-add, weights) between solves by one or two schemes; after each solve the "
     "problem received by the solver is compared to the one the current tasks stand for", must_observe=["edits", "weight_changes"])
prop("S05", [mode("solve.cpp", "s05", 3, (6000, 150000))],
     "random problems with one to three substitution hints (identity, diagonal, generic, rank deficient, patterns, several "
     "constraints or variables, chains and cycles, parts of variables), added and removed between solves; the solution is "
     "compared with the one of the problem without hint", must_observe=["substitutions", "optima_compared"])
prop("S06", [mode("subst.cpp", "s06", 1, (8000, 300000))],
     "random sets of one to four substitutions (all calculators, several equations or variables, chains and cycles, rank "
     "deficiency, parts of larger variables, all right-hand-side conventions), changed, removed and added; the affine set they "
     "describe is compared with the solutions of the equations", must_observe=["sets_compared", "changes", "groups"])

prop("S01", [mode("assign.cpp", "s01", 1, (30000, 1500000))],
     "random pairs of source constraint and target over all types and right-hand-side conventions, weights, variables, rows; bounds "
     "of all shapes, first and following; rows of the target are read back with its conventions",
     must_observe=["rows_compared", "bounds_compared", "refused"])
prop("S02", [mode("assign.cpp", "s02", 2, (12000, 500000))],
     "the same, followed by histories of changes: data of the source, target memory and rows, order of variables, "
     "variables added and removed, weights, moves",
     must_observe=["data_changes", "target_changes", "mapping_changes", "weight_changes", "moves"])
prop("S08", [mode("compiled.cpp", "s08", 0, (30000, 1500000))],
     "every kind of elementary assignment between random blocks of matrices and vectors; histories of runs, changes of the data, weights, "
     "multipliers, sources and targets, copies and moves; the whole target compared with the definition after each run",
     must_observe=["runs", "matrices", "vectors", "zeros", "constants", "externals"])
prop("S10", [mode("solve.cpp", "s10", 4, (8000, 200000))],
     "random hierarchical problems (several levels, inequalities and bounds at all levels, weights, damping), edited between "
     "solves, with solver failures and exceptions; the levels received by the solver are compared row by row with the tasks; "
     "with substitution hints, the optimum of each level is compared with the one without hint",
     must_observe=["problems_compared", "level_rows", "edits", "weight_changes", "optima_compared"])
prop("W01", [dict(src=["solve.cpp"], name="w01", flags=["-DFOCUS=11", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "mocks")],
                  cases=(8000, 200000))],
     "the workloads of S03, S04, S05 and S10 through the wrappers of QLD, Quadprog, LSSOL and LexLS (all options), compiled "
     "against stand-ins that check the sizes they receive, record the problem as the library would understand it and solve it; "
     "the problem and the solution are compared with the tasks",
     must_observe=["problems_compared", "qld", "qld_cholesky", "quadprog", "quadprog_cholesky", "lssol", "lexls", "lexls_hierarchical",
                   "minimum_norm_seen_by_backend", "options_checked"])
prop("S07", [mode("solve.cpp", "s07", 5, (8000, 200000))],
     "random problems with requirements a scheme cannot honour (inequalities or norms at some levels, weights of wrong size), tasks that "
     "cannot be linearized, functions and solvers that throw, solvers that fail; then corrected, and the problem received by the solver "
     "compared with the tasks",
     must_observe=["refused", "problems_compared", "solver_exceptions", "solver_failures", "function_exceptions", "refused_additions"])
prop("S09", [mode("solve.cpp", "s09", 6, (8000, 200000))],
     "random histories with several problems sharing tasks and variables, solved by several schemes of both kinds with their own big number, "
     "created and destroyed in any order; at each resolution, what the solver receives is compared with the tasks of this problem",
     must_observe=["problems_compared", "requirement_changes", "adopted", "limits"])
prop("M01", [mode("solve.cpp", "m01", 7, (8000, 200000))],
     "all the resolution workloads (edits, hints, hierarchies, several schemes, refusals and faults), each resolution being done with "
     "Eigen allocations forbidden by the user: an allocation outside the (re)building of the data aborts, permission and balance of the "
     "overrides are checked after each resolution",
     must_observe=["guarded_resolutions", "guarded_exceptions"])
prop("R01", [mode("requirements.cpp", "r01", 1, (40000, 2000000))],
     "random requirements built from any subset of arguments in many orders, copied, converted and changed in all ways with valid and "
     "invalid values; values, default flags and calls of the registered callbacks compared with a model after each operation",
     must_observe=["requirements_compared", "changes", "invalid_refused", "set_from_requirement"])
prop("E01", [mode("requirements.cpp", "e01", 2, (40000, 2000000))],
     "random histories of registrations, moves and destructions of tokens and managers, runs, with callbacks that register, drop, unregister, "
     "throw or run again; each run compared with a model of the callbacks alive",
     must_observe=["runs", "calls", "registrations_in_callback", "pairs"])
prop("E02", [mode("requirements.cpp", "e02", 3, (40000, 2000000))],
     "random histories of registrations, notifications and destructions of listeners, including from within a reception",
     must_observe=["notifications", "receptions", "registrations_in_listener"])
prop("U01", [mode("utils.cpp", "u01", 1, (40000, 2000000))],
     "random functions with shared inputs evaluated in all forms of calls, valid and not, in random order and interleaved with changes by the user",
     must_observe=["outputs_compared", "invalid_calls"])
prop("U02", [mode("utils.cpp", "u02", 2, (40000, 2000000))],
     "random functions, right or with one planted error, given to the checks with random options and configurations; verdict and "
     "configurations visited compared with what is known",
     must_observe=["accepted", "rejected", "refused", "jacobian_errors", "velocity_errors", "acceleration_errors"])
prop("D01", [mode("graph.cpp", "d01", 5, (4000, 100000)), mode("utils.cpp", "d01p", 3, (4000, 100000))],
     "random graphs and edits of what is asked to them; sub-graphs, values, trees and dot descriptions given by the log and the probes compared "
     "with the dependencies declared and with the updates run",
     must_observe=["subgraphs_compared", "values_compared", "trees_compared", "dot_compared", "edits", "inputs_removed", "disabled", "tasks_removed"])
prop("N01", [mode("solve.cpp", "n01", 8, (8000, 200000), cfg="tsan")],
     "two to four threads, each running a random resolution workload (edits, hints, hierarchies, several schemes, refusals and faults) "
     "on its own objects, with and without the log of the graphs; data races are reported by ThreadSanitizer, wrong results by the oracles of "
     "the workloads when the same workload is right alone",
     must_observe=["threads", "problems_compared", "logged", "not_logged"])
prop("M02", [mode("solve.cpp", "m02", 9, (6000, 150000))],
     "random histories with several problems and schemes sharing tasks, which the user and the problems drop in any order: what nobody uses "
     "anymore must be released at the latest at the next resolution; all the resolution workloads must leave the amount of memory in use unchanged",
     must_observe=["released", "constraints_released", "variables_released", "solvers_released", "balanced"])
prop("K01", [mode("misc.cpp", "k01", 1, (30000, 1500000))],
     "random spaces and products, ranges, clocks, and planes moved by the user or by a provider through graphs requesting any of their outputs, "
     "compared with their definitions",
     must_observe=["spaces", "products", "ranges", "planes_compared", "ticks"])
prop("K02", [mode("misc.cpp", "k02", 2, (30000, 1500000))],
     "random matrices, maps, blocks and references in a buffer; all addresses around them and random magnitudes",
     must_observe=["addresses", "in_range", "out_of_range"])
prop("K03", [mode("solve.cpp", "k03", 10, (4000, 80000))],
     "histories of additions and removals of tasks and substitutions in one to four problems sharing tasks, functions and variables; refused tasks, copies, destructions, updates",
     must_observe=["books", "updates", "constraints_read", "strangers", "shared_tasks", "substitutions", "copies", "refused"])
PROPS["M01"]["units"].append(mode("misc.cpp", "m01s", 3, (10000, 500000)))
PROPS["M01"]["must_observe"].append("permissions_compared")
prop("N02", [mode("refuse.cpp", "n02", 1, (12000, 400000))],
     "well-formed and malformed arguments of the public operations on variables, functions, constraints, tasks, dynamics, requirements, "
     "substitutions, scheme abilities and matrix properties; observable state compared before and after each refusal",
     must_observe=["malformed", "wellformed", "variables", "vectors", "functions", "constraints", "tasks", "dynamics",
                   "requirements", "substitutions", "levels", "properties", "updateless"])
_rob = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "mocks", "robot")]
def _robot(name, focus, cases):
    return dict(src=["robot.cpp"], name=name, flags=["-DFOCUS=%d" % focus] + _rob, cases=cases)
prop("B01", [_robot("b01", 1, (4000, 100000))],
     "random robots (trees of revolute, prismatic, spherical, fixed and free joints), states, frames, planes that move, hulls, contacts and "
     "selections; values and velocities read along motions are differentiated numerically",
     must_observe=["compared", "frames", "positions", "orientations", "coms", "convex", "postures", "spherical", "selectors", "collisions",
                   "contacts", "self_contacts", "ids"])
prop("B02", [_robot("b02", 2, (1600, 50000))],
     "random robots and histories of contacts added and removed, with forces or generators; the equation of motion is compared with "
     "Newton-Euler and with the forces reported for the contacts",
     must_observe=["added", "removed", "equations", "cones"])
prop("B03", [_robot("b03", 3, (4000, 100000))],
     "random robots read over time with any number of ticks and updates, limits and files",
     must_observe=["states_compared", "times", "limits_compared", "urdf"])
