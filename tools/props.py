W = "src/waypoints_definition.cpp"; C = "src/computeCOMTraj.cpp"; S = "src/common_solve_methods.cpp"; Z = "src/solve_0_step.cpp"; U = "src/utils.cpp"; EE = "include/hpp/bezier-com-traj/solve_end_effector.hh"
WD = "include/hpp/bezier-com-traj/waypoints/"
PROPS = [
dict(id="B01", title="Returned CoM trajectories meet the requested boundary states exactly",
 statement="Whenever computeCOMTraj or computeCOMTrajFixedSize reports success, the returned curve runs from time 0 to the sum of the phase durations and its value, velocity, acceleration and jerk at both ends equal every initial or final state the constraint flags request, whatever free point the optimiser chose. The reported free point, cost, terminal velocity and terminal acceleration are those of that curve, its angular momentum rate is zero, and success is reported exactly when the optimiser succeeded.",
 over=["inputs", "configurations"], quant="every supported boundary flag set, every boundary state, duration and optimiser answer",
 why="Tests compare a few hand-picked states with tolerances and never quantify over the optimiser's answer.",
 files=[C, "include/hpp/bezier-com-traj/utils.hh", W], mech=[("genTraj", C), ("computeBezierCurve", "include/hpp/bezier-com-traj/utils.hh"), ("computeConstantWaypoints", W)], obs=["ResultDataCOMTraj: success_, x, cost_, c_of_t_, dL_of_t_, dc1_, ddc1_"]),
dict(id="B02", title="Symbolic position evaluation equals the Bezier curve it stands for",
 statement="For every supported flag set, the expression returned for the position at normalised time t, as an affine function of the free control points, equals the Bezier curve through the given constant control points and the free ones, for every t in [0,1] and every control point value. This covers the scalar-coefficient form and the matrix (waypoint) form with 1, 3 or 5 free points.",
 over=["inputs", "configurations"], quant="all flag sets, all t in [0,1], all control points", why="Unit tests sample a few t and a few control points of some of the flag sets.",
 files=[W, WD], mech=[("evaluateCurveAtTime, evaluateCurveWaypointAtTime", W)], obs=["returned coefficients of x and constant part"]),
dict(id="B03", title="Symbolic acceleration evaluation equals the second derivative of the curve",
 statement="For every supported flag set with one free control point, the expression returned for the acceleration at normalised time t equals the second time derivative of the Bezier curve of duration T through the given control points, for every t, T and control point value.",
 over=["inputs", "configurations"], quant="all flag sets, all t in [0,1], T > 0, all control points", why="Tests sample isolated instants.",
 files=[W, WD], mech=[("evaluateAccelerationCurveAtTime", W)], obs=["returned coefficients of x and constant part"]),
dict(id="B04", title="Wrench control points represent the Newton-Euler quantities of the curve",
 statement="The 6D control points computed for a problem, as affine functions of the free control point, define a Bezier curve whose value at every normalised time is the pair (c'', c x (c'' - g)) of the centre-of-mass curve fixed by the boundary states, for every boundary state, duration and free point.",
 over=["inputs", "configurations"], quant="all CoM flag sets, all boundary states, T > 0, all times in [0,1], all free points", why="Tests compare at sampled times for sampled states; the formulas are long generated expressions.",
 files=[W, WD], mech=[("computeWwaypoints", W)], obs=["list of 6x3 / 6 waypoint pairs"]),
dict(id="B05", title="Final velocity expression equals the curve's terminal velocity",
 statement="For every flag set for which it is available, the terminal velocity expression, as a function of the free control point, equals the derivative at the end time of the curve the boundary states define; for any other flag set the request is refused with an exception.",
 over=["inputs", "configurations"], quant="all flag sets, boundary states and durations", why="Only indirectly exercised by one cost function test.",
 files=[W, WD], mech=[("computeFinalVelocityPoint", W)], obs=["coefficient and constant part; exception"]),
dict(id="B06", title="Discretised constraints are exactly those at the time samples",
 statement="In the discretised formulations the inequality constraints handed to the optimiser accept a free point exactly when, at every time sample, the CoM satisfies the kinematic polytope of its phase, the contact wrench lies in that phase's cone reduced by the margin, and, if requested, each acceleration component is within its bound; samples at a contact switch obey both phases. There is no equality constraint and no missing or extra requirement.",
 over=["inputs", "configurations"], quant="all CoM flag sets, one and two phases, fixed-size and time-step grids, all states, durations, masses, polytopes and margins (cone rows from a fixed asymmetric family)", why="Tests only observe success or failure of full optimisations on few contacts.",
 files=[C, S], mech=[("computeConstraintsOneStep and helpers", C), ("Normalize", S)], obs=["A, b, D, d passed to solvers::solve"]),
dict(id="B07", title="Continuous constraints bound the control points of every phase's sub-curves",
 statement="In the continuous double-description formulation the constraints handed to the optimiser accept a free point exactly when all control points of the restriction of the CoM, wrench and (if requested) acceleration curves to each contact phase satisfy that phase's kinematic, cone and acceleration requirements. Hence any accepted trajectory satisfies them at every instant, including when a boundary state is zero.",
 over=["inputs", "configurations"], quant="all CoM flag sets, one and two phases, all states, durations, masses, kinematic polytopes and margins", why="Tests sample trajectories after optimisation; a control point lost or mis-scaled shows only in special geometry.",
 files=[C, W, S], mech=[("computeConstraintsContinuous", C), ("computeConstantWaypointsSymbolic", W)], obs=["A, b, D, d passed to solvers::solve"]),
dict(id="B08", title="The force formulation equates wrench control points with contact forces",
 statement="In the force formulation, the equality constraints require for every phase that each control point of the phase's wrench curve equals the wrench produced by that control point's own vector of non-negative contact force multipliers, with the control point shared by two phases carrying one set of forces of the more constrained phase. Kinematic and acceleration constraints are those of the double-description formulation and involve no force variable, and the lower bounds leave the free point unbounded and the forces non-negative.",
 over=["inputs", "configurations"], quant="CoM flag sets, one and two phases with different numbers of generators, all states, durations, masses, generator matrices", why="Tests only compare success of the two formulations on a few contacts.",
 files=[C], mech=[("computeConstraintsContinuous, computeNumEqContinuous", C)], obs=["A, b, D, d, bounds passed to solvers::solve"]),
dict(id="B09", title="Cost functions rank trajectories by the documented quantity",
 statement="The quadratic cost handed to the optimiser orders any two free points as the selected criterion does: distance to the mid-point between the end positions, sum over the time samples of squared acceleration, or squared distance of the terminal velocity to the target. The end-velocity cost is refused when the end velocity is constrained, and an unknown cost is refused.",
 over=["inputs", "configurations"], quant="all cost functions, CoM flag sets, states and durations", why="Tests never look at the objective.",
 files=["src/costfunction_definition.cpp", C], mech=[("cost::genCostFunction", "src/costfunction_definition.cpp")], obs=["H, g passed to solvers::solve; exceptions"]),
dict(id="B10", title="Time sampling covers every phase, in order, up to the exact total time",
 statement="Fixed-size sampling returns time 0 followed by the requested number of equally spaced points per phase; step sampling returns for each phase its start time, the multiples of the step before its end and its end. Times never decrease, each carries the index of its phase, and the last is the total duration.",
 over=["inputs"], quant="one to three phases, all durations, 1 to 5 points per phase / up to 6 steps per phase", why="Tests use a handful of durations.",
 files=[U], mech=[("computeDiscretizedTimeFixed, computeDiscretizedTime", U)], obs=["returned list of (time, phase)"]),
dict(id="B11", title="Row normalisation preserves the feasible set and reports infeasibility",
 statement="Normalising a system A x <= b leaves its set of solutions unchanged: the rows counted by the result have unit norm, the remaining rows are trivially true, and -1 is returned exactly when a row with no variable has a negative right-hand side.",
 over=["inputs"], quant="systems of up to 4 rows and 3 columns, all coefficients, all patterns of zero rows", why="Zero rows and their order never occur in tests.",
 files=[S], mech=[("removeZeroRows, Normalize", S)], obs=["A, b in place, return value"]),
dict(id="B12", title="The QP adapter poses the requested problem and reports its verdict",
 statement="For the quadratic back end, the problem given to the QP routine has the requested objective, the equalities D x = d, the inequalities A x <= b and exactly the given lower and upper variable bounds (either may be absent). Success, solution and cost are those of the routine and success is reported only for an optimal status; an unknown solver is refused. The shorter forms of solve() pose the same problem.",
 over=["inputs", "configurations"], quant="all small problems (sizes up to 3 variables, 2 rows), all coefficients, all bound presence patterns and statuses", why="Tests always pass the same bound pattern.",
 files=["src/solver-abstract.cpp"], mech=[("solvers::solve", "src/solver-abstract.cpp")], obs=["arguments of the QP routine, ResultData"]),
dict(id="B13", title="The LP adapter poses the requested problem and reports its verdict",
 statement="For the linear back end, the LP built has one row per inequality and equality with the given coefficients and right-hand sides, one column per variable with the given bounds (absent or infinite bounds are free), and the linear cost to minimise; problem size is limited only by memory. Success is reported exactly for an optimal status, with the LP's primal values and objective.",
 over=["inputs", "configurations"], quant="all small problems, all coefficients (zero or not), all bound patterns; one problem above 20000 coefficients", why="Tests use one moderate problem family.",
 files=["src/glpk-wrapper.cpp", "src/solver-abstract.cpp"], mech=[("solvers::solveglpk", "src/glpk-wrapper.cpp")], obs=["calls to the GLPK API, ResultData"]),
dict(id="B14", title="An answer declared optimal by the QP solver is feasible and optimal",
 statement="When the QP routine (dense, sparse or with the inverse factor provided) reports an optimal status, the returned point satisfies all equality and inequality constraints, satisfies the first-order optimality conditions with the reported active set and multipliers, and the reported cost is the objective at that point. For well-scaled problems it reports that the constraints cannot be met only when no point satisfies them, and dependent equalities only when they are dependent; it always terminates, also on badly scaled problems.",
 over=["inputs"], quant="small strictly convex problems, all right-hand sides and linear costs within bounds", why="Tests check success on a few problems; active-set paths depend on the data.",
 files=["src/eiquadprog-fast.cpp"], mech=[("EiquadprogFast::solve_quadprog, solve_quadprog_sparse", "src/eiquadprog-fast.cpp")], obs=["status, x, objective value"]),
dict(id="B15", title="Zero-step capturability results describe a motion that comes to rest",
 statement="When solve0step succeeds, the returned CoM curve starts at the given position and velocity, lasts the given time and ends at the chosen point with zero velocity. With angular momentum the returned rate curve equals the derivative of the momentum curve from the initial momentum to rest and the reported cost is its integral measure; without it the rate is zero and the cost is the distance from the initial position to the end point.",
 over=["inputs", "configurations"], quant="all states, durations and optimiser answers, with and without angular momentum", why="Tests check success flags on a few contacts.",
 files=[Z], mech=[("solve0step, computeC_of_T, computedL_of_T, computeRealCost", Z)], obs=["ResultDataCOMTraj"]),
dict(id="B16", title="Zero-step constraints are the wrench cone and kinematic limits of the motion",
 statement="The constraints built by solve0step accept a free point (and free angular momentum point) exactly when every control point of the wrench curve (continuous mode) or its value at every discretisation sample (with a time step) lies in the contact cone and the end point and momentum variables satisfy the kinematic and angular polytopes. The cost handed over ranks points by distance to the initial position (plus the angular momentum integral).",
 over=["inputs", "configurations"], quant="all states, durations, polytopes; continuous and discretised; with and without angular momentum", why="Tests only observe success or failure.",
 files=[Z, S], mech=[("ComputeAllWaypoints, compute6dControlPointInequalities, computeCostFunction", Z)], obs=["A, b, H, g passed to solvers::solve"]),
dict(id="B17", title="End-effector derivative expressions equal derivatives of the curve",
 statement="For the curves constrained up to jerk with 1, 3 or 5 free control points, the velocity, acceleration and jerk control points and their evaluation at any normalised time equal the derivatives of the curve of duration T, as affine functions of the free points.",
 over=["inputs", "configurations"], quant="three flag sets, all states, T > 0, all t in [0,1]", why="Tests sample only some orders and instants.",
 files=[W, WD], mech=[("computeVelocityWaypoints, computeAccelerationWaypoints, computeJerkWaypoints, evaluate*CurveWaypointAtTime", W)], obs=["returned waypoints"]),
dict(id="B18", title="End-effector constraints bound all derivatives and keep the foot above ground",
 statement="The constraints built for an end-effector problem accept a choice of free points exactly when every velocity, acceleration and jerk control point that depends on them is within the given bounds, componentwise and on both sides, and each free point is not below the lower of the two end positions.",
 over=["inputs", "configurations"], quant="three flag sets, all states, durations and bounds", why="Bounds are so large in tests that they never act.",
 files=[EE], mech=[("computeConstraintsMatrix, computeEndEffectorConstraints", EE)], obs=["A, b"]),
dict(id="B19", title="End-effector costs measure path distance and motion smoothness",
 statement="The end-effector cost is the weighted sum of a term whose minimiser over the free points is the least-squares fit of the curve to the reference path at the samples, and a term proportional to the integral of squared velocity of the curve; the discretised velocity, acceleration and jerk costs equal the sum of the squared derivative at the samples.",
 over=["inputs", "configurations"], quant="three flag sets, all states, durations, weights and path values", why="Tests only check that optimisation succeeds.",
 files=[EE, W, WD], mech=[("computeDistanceCostFunction, computeVelocityCost, compute*CostFunctionDiscretized, computeEndEffectorCost", EE)], obs=["H, g"]),
dict(id="B20", title="Returned end-effector trajectories meet all boundary derivatives",
 statement="Whenever solveEndEffector reports success, the returned curve lasts the requested time and has the requested position, velocity, acceleration and jerk at both ends, with its free control points being the optimiser's answer, for each supported number of free points; success mirrors the optimiser and the problem passed to it contains no uninitialised value.",
 over=["inputs", "configurations"], quant="three flag sets, all states, durations and optimiser answers", why="Tests sample few states with tolerances.",
 files=[EE], mech=[("solveEndEffector, computeC_of_T", EE)], obs=["ResultDataCOMTraj, arguments of solvers::solve"]),
dict(id="B21", title="Unsupported requests are refused instead of silently answered",
 statement="For every combination of boundary flags, each entry point either behaves as specified for a supported set or throws; no unsupported set is answered with the formulas of another. Mismatched numbers of phase durations and contacts, and a non-zero terminal velocity for the capturability set, are refused.",
 over=["configurations", "inputs"], quant="all combinations of the boundary and free-variable flags", why="Tests use only supported combinations.",
 files=[W, C], mech=[("flag dispatch tables", W)], obs=["exceptions of the public functions"]),
dict(id="B22", title="Waypoint algebra and curve assembly follow their definitions",
 statement="Adding, subtracting and scaling symbolic waypoints act on the matrix and constant parts like the affine maps they stand for, sums of different sizes are refused, skew(a) b is the cross product, and the Bernstein weights sum to one and match the binomial definition. Assembling a curve from constant points and the free point keeps their order.",
 over=["inputs"], quant="all values, sizes up to 6x6, degrees up to 13", why="Tests do not cover mixed sizes or the algebraic laws.",
 files=[U, "include/hpp/bezier-com-traj/utils.hh"], mech=[("waypoint_t operators, skew, ComputeBersteinPolynoms", U)], obs=["returned values, exceptions"]),
dict(id="B23", title="Constant control points are those the boundary states impose",
 statement="For every supported flag set, the numeric constant control points are the unique ones for which a Bezier curve of the given duration has the requested boundary derivatives, and the symbolic control points used by the continuous formulation agree with them and mark exactly the free points as variable, also when a boundary state is at the origin. The degree-4 foot curves with an imposed start or arrival have the requested position, velocity and acceleration and zero jerk there and reach the other end.",
 over=["inputs", "configurations"], quant="all flag sets, all states including zeros, T > 0", why="Degenerate states and rarely used flags are not sampled.",
 files=[W, WD, EE], mech=[("computeConstantWaypoints, computeConstantWaypointsSymbolic", W), ("computeConstantWaypointsInitPredef, computeConstantWaypointsGoalPredef", EE)], obs=["returned points"]),
]
NA = {}
PROPS += [
dict(id="B24", title="The Python bindings expose the library's results unchanged",
 statement="Every value read or written through the Python module equals the corresponding C++ member and changes nothing else, and every bound function hands the optimiser the same problem and returns the same result as the C++ function for the same arguments. Requests the library refuses raise a Python exception, as do constraint matrices and vectors of different lengths and results that are not available. What a script still refers to stays valid when the object it was read from is dropped.",
 over=["inputs", "configurations"], quant="all attributes, enumerations and bound functions, all values, several array layouts", why="There is one Python smoke test, not part of the build here.",
 files=["python/bezier_com_traj.cpp"], mech=[("boost::python wrappers", "python/bezier_com_traj.cpp")], obs=["attributes, return values and exceptions of the module; arguments of solvers::solve"]),
dict(id="B25", title="Rounding errors stay negligible",
 statement="For problems of physical magnitude, the floating-point results differ from their exact real values by no more than a small relative error.",
 over=["inputs"], quant="all inputs of physical magnitude", why="Tests use fixed tolerances at sampled points.",
 files=["src"], mech=[("double arithmetic", "src")], obs=["all outputs"]),
dict(id="B26", title="Calls keep no state: same arguments, same problem and result",
 statement="A call that computes a trajectory depends on its arguments only: repeating it, at once or after calls with other requests (also refused ones), hands the optimiser the same problem and returns the same result. Its arguments are left as they were, copies of the problem data are independent and give the same problem, and a QP solver object used before answers like a fresh one.",
 over=["histories", "inputs"], quant="all pairs of nine kinds of calls, all values; QP objects reused after other problems", why="Tests never repeat or interleave calls and compare.",
 files=["src", "include/hpp/bezier-com-traj/data.hh", "src/eiquadprog-fast.cpp"], mech=[("public entry points", C), ("ContactData copy", "include/hpp/bezier-com-traj/data.hh"), ("EiquadprogFast::reset", "src/eiquadprog-fast.cpp")], obs=["arguments of solvers::solve, results, arguments after the call"]),
dict(id="B27", title="No request reads or writes memory it does not own",
 statement="For every supported request, whatever the number of phases, constraint rows, generators, samples, free points and unknowns, the library reads and writes only live memory of its own or its arguments, hands the optimiser matrices and vectors of consistent sizes, and neither the problem nor the result contains a value that was never initialised.",
 over=["inputs", "configurations"], quant="all flag sets, formulations and entry points, 1-4 phases, 0-4 constraint rows per phase in mixed patterns, both back ends", why="An overrun of a few bytes shows in no result.",
 files=["src", "include"], mech=[("matrix assembly by block", C), ("work arrays of the back ends", "src/glpk-wrapper.cpp"), ("EiquadprogFast", "src/eiquadprog-fast.cpp")], obs=["memory accesses; arguments of solvers::solve and results"]),
]
NA["B25"] = "The encoding interprets doubles as reals; bit-precise double arithmetic over the long polynomial expressions (hundreds of multiplications) does not finish in the available solvers' floating-point theory."
