#!/usr/bin/env python3
# One-off authoring helper: writes /verif/properties.jsonl (the committed artefact).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
SOLVE="include/hpp/bezier-com-traj/solve.hh"; COM="src/computeCOMTraj.cpp"; WP="src/waypoints_definition.cpp"; WPD="include/hpp/bezier-com-traj/waypoints/"
p("C01","Planned COM curves meet every requested boundary condition",
 "Whenever a centre-of-mass plan reports success, the returned curve is defined exactly on [0, sum of the phase durations] and takes there every initial and terminal position, velocity, acceleration and jerk that the selected condition set asks for, the remaining control point being the reported solution. The reported terminal velocity and acceleration are the derivatives of that same curve at its end, and the reported angular-momentum variation is identically zero over the same interval.",
 ["inputs","configurations"],"every supported condition set, boundary data (including zero vectors), number and duration of phases, contact set, cost, formulation (fixed sampling, time step, continuous, force) and solver back end",
 "Tests fix two scenarios with T=0.6 per phase, zero boundary velocities and accelerations, and never evaluate the returned end state for non-zero data or for the jerk condition set.",
 [COM,"include/hpp/bezier-com-traj/utils.hh",WPD],
 [("assembly of constant and free control points into the curve","include/hpp/bezier-com-traj/utils.hh computeBezierCurve"),("constant control points per condition set",WPD+"*.hh computeConstantWaypoints"),("result construction",COM+" genTraj")],
 ["returned curve c(t), terminal velocity/acceleration, angular momentum variation"])
p("C02","Sampled COM plans respect dynamics, kinematics and bounds at every sample",
 "Whenever a sampled plan (fixed number of points per phase, or a time step) succeeds, then at every sample instant, including t=0, the final time and each phase change (where both adjacent phases count), contact forces inside the friction cones of the active contacts can produce the motion with the requested robustness margin, and the COM satisfies that phase's kinematic inequalities. If acceleration bounding is enabled, every acceleration component at every sample is within the bound.",
 ["inputs","configurations"],"all condition sets, contact geometries, friction, masses, kinematic polytopes, phase counts and durations, sampling densities, margins and acceleration bounds",
 "Tests check two hand-written scenarios with 0.6 s phases and a sample grid that hides off-by-one errors at phase changes.",
 [COM,"src/common_solve_methods.cpp","src/utils.cpp",WP],
 [("stability rows per sample and phase switch",COM+" assignStabilityConstraints/switchContactPhase"),("kinematic rows",COM+" assignKinematicConstraints"),("acceleration rows",COM+" assignAccelerationConstraints"),("sample grid","src/utils.cpp computeDiscretizedTime*")],
 ["returned curve evaluated at the sample instants"])
p("C03","Continuous COM plans are dynamically and kinematically valid at every instant",
 "Whenever a continuous plan (no time step) succeeds, then at every instant of every phase, not only at samples, contact forces inside the friction cones of that phase's contacts can produce the motion and the COM satisfies that phase's kinematic inequalities, with the requested robustness margin in the cone formulation. If acceleration bounding is enabled, each acceleration component stays within the bound at all times.",
 ["inputs","configurations"],"all condition sets, contact sequences (nested or not), boundary data including zero vectors, kinematic polytopes, durations, cone and force formulations, both solver back ends",
 "Tests sample one nested contact sequence in which no boundary vector is zero; a wrong symbolic control point or a dropped phase-change constraint stays invisible.",
 [COM,WP,WPD],
 [("control points of split symbolic curves constrained per phase",COM+" computeConstraintsContinuous"),("symbolic constant/free control points",WP+" computeConstantWaypointsSymbolic"),("force variables tied to the wrench control points",COM+" assignStabilityConstraintsForTimeStepForce")],
 ["returned curve evaluated densely on each phase"])
p("C04","A COM planning request fails only when its constraints are infeasible",
 "A planning request reports failure only if no value of the free control point satisfies the chosen formulation: the per-sample constraints of the sampled formulations, or the constraints on all control points of the phase-wise split curves of the continuous one, acceleration bounds counting only when enabled. A failed result carries no solution vector and is distinguishable from a success.",
 ["inputs","configurations"],"all condition sets, scenarios, margins, bounds, costs, phase counts, sampled and continuous cone formulation with the quadratic solver",
 "Tests contain a handful of feasible and infeasible scenarios; spurious constraints or premature solver failure in other regions go unnoticed.",
 [COM,"src/eiquadprog-fast.cpp","src/solver-abstract.cpp"],
 [("constraint assembly",COM+" computeConstraintsOneStep/computeConstraintsContinuous"),("infeasibility verdict","src/solver-abstract.cpp solve"),("row normalisation","src/utils.cpp / src/common_solve_methods.cpp Normalize")],
 ["success flag and solution vector of the result"])
p("C05","A successful COM plan minimises the selected cost over its admissible set",
 "Among all values of the free control point admissible in the chosen formulation, the one returned by the quadratic back end minimises the selected cost: the sum of squared COM accelerations over the sample instants (seven per phase plus t=0 in the continuous formulation), the squared distance of the free control point to the middle of start and goal, or the squared deviation of the terminal velocity from its target. The reported cost is one half of that cost without its constant term.",
 ["inputs","configurations"],"the three costs, every condition set each cost applies to, and all sampled and continuous cone scenarios of C02 and C03",
 "Tests never inspect optimality; any feasible point would pass.",
 ["src/costfunction_definition.cpp",COM,"src/eiquadprog-fast.cpp"],
 [("cost matrices","src/costfunction_definition.cpp"),("QP solve","src/solver-abstract.cpp solve")],
 ["solution vector and cost of the result"])
p("C06","Formulations and solver back ends agree on continuous planning problems",
 "For a continuous problem without robustness margin, the contact-force formulation and the wrench-cone formulation, with either solver back end, agree on whether a trajectory exists. Whenever the linear back end succeeds, its solution is admissible and attains the minimum of the linear part of the selected cost over the same admissible set, which it also reports as the cost; it may fail only where that minimum is unbounded or the set is empty.",
 ["inputs","configurations"],"contact sequences, condition sets, costs, kinematic polytopes, bounds; both representations and both back ends",
 "Tests run each combination on one scenario and only look at success.",
 [COM,"src/solver-abstract.cpp","src/glpk-wrapper.cpp"],
 [("force formulation",COM+" computeConstraintsContinuous"),("LP back end","src/glpk-wrapper.cpp solveglpk"),("bounds and equalities in the QP back end","src/solver-abstract.cpp addBoundaryConstraintsQuadProg")],
 ["success flags, solutions, costs"])
p("C07","A zero-step capturability plan brings the COM to a dynamically valid stop",
 "Whenever a zero-step capturability request succeeds, the returned curve starts at the given position and velocity, has zero velocity at the requested duration, and at every instant (every sample when a time step is given) its contact wrench, including the returned angular-momentum variation when angular momentum is used, can be produced inside the friction cones. The stopping point satisfies the kinematic inequalities, the angular-momentum variable satisfies the angular inequalities, and the momentum variation integrates to minus the initial angular momentum (or is identically zero when angular momentum is not used).",
 ["inputs","configurations"],"contact sets, initial states, durations, with or without angular momentum, kinematic and angular inequalities, continuous or time-step form",
 "The zero-step test file is not part of the build; no test reaches this entry point.",
 ["src/solve_0_step.cpp","src/common_solve_methods.cpp"],
 [("wrench and momentum control points","src/solve_0_step.cpp w0..w4,u0..u4"),("constraint stacking","src/common_solve_methods.cpp compute6dControlPointInequalities"),("curves","src/solve_0_step.cpp computeC_of_T/computedL_of_T")],
 ["returned COM curve, momentum variation curve, solution vector"])
p("C08","Zero-step capturability answers are complete, optimal and honestly costed",
 "A zero-step capturability request fails only if no stopping point (and angular-momentum variable) satisfies the cone constraints on the wrench control points or samples together with the kinematic and angular inequalities. On success the solution minimises the distance between stopping point and initial position, or, with angular momentum, the integral of the squared momentum variation plus a small multiple of that distance squared, and the reported cost is respectively that distance or the integral of the squared momentum variation over unit time.",
 ["inputs","configurations"],"as C07",
 "No registered test calls this entry point.",
 ["src/solve_0_step.cpp","src/common_solve_methods.cpp"],
 [("cost","src/solve_0_step.cpp computeCostFunction/computeRealCost"),("constraints","src/common_solve_methods.cpp compute6dControlPointInequalities")],
 ["success flag, solution, cost"])
p("C09","Symbolic COM control points describe the actual curve and its contact wrench",
 "For every supported COM condition set and every value of the free control point, the symbolic point, acceleration, terminal-velocity and per-unit-mass wrench expressions evaluate to the position, acceleration, terminal velocity and (acceleration, moment of acceleration minus gravity) of the one curve that meets the boundary conditions with that free control point, at every time. Expressions are affine in the free control point.",
 ["inputs"],"condition sets, boundary data, durations, normalised times, values of the free control point",
 "The symbolic test compares a few hand-copied formulas on one scenario's data.",
 [WP,WPD],
 [("per-condition-set closed forms",WPD+"*.hh"),("dispatch by condition set",WP)],
 ["symbolic evaluation functions and control points"])
p("C10","Symbolic end-effector control points, derivatives and smoothness cost are exact",
 "For the jerk-constrained condition sets with one, three and five free control points, the constant control points yield the requested position, velocity, acceleration and jerk at both ends, the symbolic position and the symbolic velocity, acceleration and jerk control points equal those of the curve for every value of the free points and every time, and, for the sets where they are implemented, so do the pointwise derivative expressions. The smoothness cost matrices are, up to one positive factor, the integral of the squared velocity of that curve up to a constant.",
 ["inputs"],"boundary data, durations, times, free control points; one, three and five free points (pointwise derivatives only where implemented)",
 "No registered test exercises these closed forms.",
 [WPD+"waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh",WPD+"waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh",WPD+"waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh",WP],
 [("closed forms",WPD+"waypoints_c0_dc0_ddc0_j0_*.hh"),("dispatch",WP)],
 ["symbolic functions, velocity-cost matrices"])
p("C11","End-effector curves meet end states, height floor, limits and trade-off",
 "Whenever an end-effector request succeeds, its curve over the requested duration has exactly the requested position, velocity, acceleration and jerk at both ends, its free control points are not below the lower of start and goal height, and the control points of its first three derivatives that depend on the free points respect the built-in limits. The free control points minimise the weighted sum of the smoothness cost and the distance to the given path, and the request fails only if the floor and limits are infeasible. The predefined lift-off and landing curves start (land) at the requested position, velocity and acceleration, with zero jerk at the moving end, and reach the other end position.",
 ["inputs","configurations"],"boundary data, durations, reference paths, weights in [0,1], one, three and five free control points",
 "No registered test calls the end-effector solver.",
 ["include/hpp/bezier-com-traj/solve_end_effector.hh",WPD],
 [("constraints","include/hpp/bezier-com-traj/solve_end_effector.hh computeConstraintsMatrix"),("cost","include/hpp/bezier-com-traj/solve_end_effector.hh computeEndEffectorCost"),("curve","include/hpp/bezier-com-traj/solve_end_effector.hh computeC_of_T")],
 ["result curve and solution"])
p("C12","The quadratic back end returns the constrained minimiser or a correct verdict",
 "For every strictly convex quadratic program with linear inequalities, equalities and optional variable bounds, the solver reports success exactly when the constraints are feasible (linearly dependent equalities may be refused), and the point it returns is the unique constrained minimiser with its objective value. The multipliers and active set it exposes certify that point.",
 ["inputs"],"dimensions 1 to 40, well-scaled data, redundant and duplicated inequalities, degenerate vertices, optional lower and upper bounds, dense and sparse entry points",
 "Tests only reach the solver through three-variable planning problems without equalities or bounds.",
 ["src/eiquadprog-fast.cpp","src/solver-abstract.cpp"],
 [("dual active-set method","src/eiquadprog-fast.cpp solve_quadprog, solve_quadprog_sparse"),("bounds as inequalities","src/solver-abstract.cpp")],
 ["status, solution, objective, multipliers, active set"])
p("C13","The linear back end returns an optimum or a correct verdict at any problem size",
 "For every linear program with inequalities, equalities and optional variable bounds, the linear back end succeeds exactly when a finite optimum exists, and then returns a feasible point attaining it together with that optimal value. It always terminates, degenerate programs included. This holds for any number of constraints and non-zero coefficients and for coinciding bounds; bounds at or beyond the documented unbounded values do not restrict.",
 ["inputs"],"dimensions 1 to 200, up to about 100000 non-zeros, empty constraint sets, one-sided, two-sided and coinciding bounds",
 "Tests reach the LP only through one small planning problem.",
 ["src/glpk-wrapper.cpp","src/solver-abstract.cpp"],
 [("problem loading","src/glpk-wrapper.cpp solveglpk"),("bound classification","src/glpk-wrapper.cpp getType")],
 ["success flag, solution, cost"])
p("C14","Every request is a pure function of its arguments, whatever was called before",
 "Repeating any planning, capturability, end-effector or optimisation request with equal arguments gives bit-identical results, whatever other requests (successful, infeasible, rejected, concurrent, or differing in a single datum) happened in between, and no request modifies the problem data it was given. A solver object that is reused for further problems answers as a fresh one would.",
 ["histories","schedules"],"sequences of mixed requests, with failures and exceptions interleaved, solver object reuse with changing sizes, and independent requests on several threads",
 "Tests issue each request once and never reuse a solver.",
 [COM,"src/solve_0_step.cpp","src/solver-abstract.cpp","src/eiquadprog-fast.cpp",WP],
 [("solver workspaces reset per problem","src/eiquadprog-fast.cpp reset"),("static dispatch tables never written after initialisation",WP)],
 ["results of repeated requests, problem data before and after"])
p("C15","Plans do not depend on the frame, the mass unit, the time unit or input order",
 "Permuting the contacts or the kinematic inequalities, or scaling the mass, changes neither the verdict nor the cost-optimal trajectory. Without robustness margin, translating a whole scene, rotating it about the vertical axis (friction cones included; by quarter turns when the acceleration is bounded, since that bound is per axis), or scaling all lengths by a factor and all times by its square root (accelerations unchanged) transforms the trajectory in that same way and leaves the verdict. For capturability with angular momentum, whose cost adds lengths and momenta, a change of the mass or length unit leaves the verdict.",
 ["inputs"],"scenes, transformations, condition sets, sampled and continuous cone formulations and zero-step capturability",
 "Tests have two scenes in fixed frames; frame-dependent errors (a point at the origin, a swapped axis) do not show.",
 [COM,"src/solve_0_step.cpp",WP],
 [("homogeneous constraint assembly",COM),("capturability constraint assembly","src/solve_0_step.cpp")],
 ["verdict and trajectory of transformed problems"])
p("C16","Ill-formed requests are refused with an error, well-formed ones never are",
 "Requests whose number of durations differs from the number of contact phases, whose condition set or cost is unsupported, which ask for a target terminal velocity while constraining it, which combine incompatible waypoint sizes, whose inequality matrices, vectors or bounds have mismatched sizes, which ask for no point per phase or a time grid whose step is not positive, or which refer to a contact phase that is missing or has no friction cone where one is needed raise an error instead of returning a trajectory. Every supported combination is accepted, and a refused request leaves the problem data unchanged and the library usable.",
 ["inputs","configurations","histories"],"all condition-flag combinations, all costs, all solver values, mismatched sizes, mixed with valid requests",
 "No test exercises an error path.",
 [COM,WP,"src/costfunction_definition.cpp","src/solver-abstract.cpp","src/utils.cpp"],
 [("size checks",COM+" computeCOMTraj/computeCOMTrajFixedSize"),("dispatch on condition set",WP),("cost dispatch","src/costfunction_definition.cpp"),("solver dispatch","src/solver-abstract.cpp")],
 ["exceptions and results"])
p("C17","No request reads or writes outside its objects or hits undefined behaviour",
 "No planning, capturability, end-effector, optimisation or problem-data operation, on any accepted or refused input made of finite numbers, accesses memory outside its objects, uses released or null memory, or triggers undefined arithmetic or conversion. This includes large problems, problems without kinematic inequalities, bounded optimisation problems, and copied or default-constructed problem data.",
 ["inputs","histories"],"all public entry points with generated scenes, sizes from empty to large, and sequences of copies, assignments and requests",
 "The test suite runs without sanitizers on a handful of sizes.",
 ["src","include/hpp/bezier-com-traj"],
 [("fixed-size and block arithmetic",COM),("bounds rows","src/solver-abstract.cpp"),("LP arrays","src/glpk-wrapper.cpp"),("contact data copies","include/hpp/bezier-com-traj/data.hh")],
 ["sanitizer reports, crashes"])
p("C18","The Python interface does exactly what the C++ library does",
 "Every attribute set on a Python problem, constraint or contact object is read back unchanged and is the one the planner uses, whatever the memory layout of the arrays, and planning, capturability and end-effector calls from Python return the same verdict, solution, cost, curves and matrices as the library called directly with the same data. Inequalities with mismatched numbers of rows, attributes that are not set, and the solution of a failed request raise a runtime error; objects stay usable as long as Python refers to them.",
 ["inputs","histories"],"sequences of attribute writes and reads, generated scenes, both capturability overloads, both planning overloads, end-effector helper functions",
 "The Python test script is not run by the build; nothing exercises the binding.",
 ["python/bezier_com_traj.cpp"],
 [("property getters and setters","python/bezier_com_traj.cpp"),("request wrappers","python/bezier_com_traj.cpp")],
 ["Python-visible values and exceptions"])
p("C19","Data copies are faithful and independent; waypoint algebra obeys its laws",
 "A copy of contact, constraint, problem or result data equals its source in every field, including for default-constructed data, and modifying either afterwards does not affect the other. Symbolic waypoints form a vector space under addition, subtraction and scaling, combine size-checked, and evaluation at a free point commutes with these operations and with building, splitting and deriving curves from them.",
 ["inputs","histories"],"sequences of construct, copy, assign, modify; waypoints of all dimensions and curve degrees",
 "No test copies problem data and inspects the copy.",
 ["include/hpp/bezier-com-traj/data.hh","include/hpp/bezier-com-traj/utils.hh","src/utils.cpp","include/hpp/bezier-com-traj/solver/solver-abstract.hpp"],
 [("copy constructors","include/hpp/bezier-com-traj/data.hh"),("waypoint operators","src/utils.cpp")],
 ["field values of copies, evaluated waypoints"])
p("C20","Sampling grids cover every phase and row normalisation keeps the solution set",
 "The time grid for a positive number of points per phase starts at zero, increases to exactly the total duration and gives each phase its evenly spaced points up to and including its end; the grid for a time step contains, for each phase, its start, each multiple of the step inside it and its end, labelled with that phase. Normalising an inequality system keeps its solution set, yields unit rows first with the returned count, and reports a contradictory empty row.",
 ["inputs"],"phase counts 1 to 6, durations, points per phase, time steps up to half a phase; matrices with zero rows anywhere",
 "Tests use three equal phases and never look at the grid or the normalised rows.",
 ["src/utils.cpp","src/common_solve_methods.cpp"],
 [("time grids","src/utils.cpp computeDiscretizedTimeFixed/computeDiscretizedTime"),("normalisation","src/common_solve_methods.cpp Normalize/removeZeroRows")],
 ["grid entries, normalised systems"])
p("C21","A request keeps no memory once its answer is released",
 "Answering any planning, capturability, end-effector or optimisation request, whether it succeeds, fails or is refused, leaves no memory allocated once its result is destroyed, whether the requests repeat or are all different, so that a planner can issue any number of requests.",
 ["inputs","histories"],"repeated sequences of mixed well-formed and ill-formed requests, copies and assignments of results",
 "Tests issue few requests in short-lived processes and nobody counts allocations.",
 ["src","include/hpp/bezier-com-traj/data.hh"],
 [("contact data per phase",COM+" computeConstraintsContinuous"),("GLPK problem objects","src/glpk-wrapper.cpp"),("result curves",COM+" genTraj")],
 ["outstanding allocations before and after"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
