COM = ["c0_dc0_c1", "c0_dc0_dc1", "c0_dc0_dc1_c1", "c0_dc0_ddc0", "c0_dc0_ddc0_c1", "c0_dc0_ddc0_dc1_c1", "c0_dc0_ddc0_ddc1_dc1_c1"]
JERK = ["j0_j1", "j0_x3_j1", "j0_x5_j1"]
ST = "states in [-5,5]^3, durations in [1/8,8]"
CHECKS = {
 "B01": dict(harness=["b01.cpp"], labels=["traj_" + f for f in COM + ["j0_j1"]] + ["failure_" + f for f in COM] + ["fixed", "discretised", "continuous"],
             bounds="7 CoM flag sets and the degree-8 jerk set, 1-3 phases, three entry points, %s, free point in [-8,8]^3, phases without cone or kinematic rows (those are B06-B08); discretised call with fixed durations 1, 0.5+1 and 0.5+1+0.75." % ST),
 "B02": dict(harness=["b02.cpp"], labels=["eval_" + f for f in COM + ["j0_j1"]] + ["evalwp_" + f for f in JERK], bounds="all 10 flag sets, t in [0,1], control points in [-5,5]^3."),
 "B03": dict(harness=["b03.cpp"], labels=["acc_" + f for f in COM + ["j0_j1"]], bounds="8 flag sets, t in [0,1], T in [1/8,8], control points in [-5,5]^3."),
 "B04": dict(harness=["b04.cpp"], labels=["w_" + f for f in COM], bounds="7 CoM flag sets (the 8th, with jerks, is a known finding), %s, time in [0,1], gravity (0,0,-9.81)." % ST),
 "B05": dict(harness=["b05.cpp"], labels=["vel_" + f for f in COM], bounds="7 CoM flag sets, %s." % ST),
 "B06": dict(harness=["b06.cpp"], labels=["rows_" + f for f in COM] + ["phases%d" % i for i in (1, 2, 3)] + ["fixed", "step", "acc", "noacc", "points1", "points2", "points3", "switch", "phases4"], bounds="7 CoM flag sets, 1-3 phases (fixed size: up to 4, thorough 5), 1-3 samples per phase, states in [-5,5]^3, total duration in [1,6] split at fixed fractions that differ per flag set, and two phases switching at any fraction in [1/8,7/8] for curves of degree 3 or 4 (all in thorough), masses in [1,90], margin in [0.001,0.5], 0-2 kinematic rows with symbolic normals and 1-2 concrete asymmetric cone rows per phase."),
 "B07": dict(harness=["b07.cpp"], labels=["cont_" + f for f in COM] + ["split%d" % i for i in range(6)] + ["zero_init", "zero_final", "generic", "acc", "noacc"], bounds="7 CoM flag sets, 1-3 phases (seven pairs of switch fractions), for curves of degree 3 (all in thorough) also two phases switching at any fraction in [1/8,7/8] and four phases, states in [-5,5]^3 or at rest at the origin, T in [1,6], masses in [1,90], margin in [0.001,0.5], 0-2 symbolic kinematic rows and 1-2 concrete asymmetric cone rows per phase."),
 "B17": dict(harness=["b17.cpp"], labels=["eval_%s_%s" % (d, f) for d in ("velocity", "acceleration", "jerk") for f in JERK[:2]] + ["wp_%s_%s" % (d, f) for d in ("velocity", "acceleration", "jerk") for f in JERK], bounds="3 flag sets, 3 derivative orders, control points and evaluation, t in [0,1], %s." % ST),
 "B23": dict(harness=["b23.cpp"], labels=["predef_init", "predef_goal"] + [p + f for p in ("num_", "sym_") for f in COM + JERK] + ["state%d" % i for i in range(5)], bounds="10 flag sets, %s, generic states, states at rest at the origin at either or both ends, and partly zero states; numeric and symbolic points; the two degree-4 foot curves with imposed start or arrival." % ST),
 "B22": dict(harness=["b22.cpp"], labels=["alg%d" % i for i in range(6)] + ["curve", "refused", "accepted", "skew", "bernstein"] + ["asm_" + f for f in COM + ["j0_j1"]], bounds="six waypoint sizes from 1x1 to 6x6 and 3x15, all values in [-9,9]; all pairs of sizes up to 3 rows, columns and constants for the size checks; degrees 0 to 13; 8 flag sets with one free point."),
 "B10": dict(harness=["b10.cpp"], labels=["fixed%d" % i for i in range(1, 6)] + ["step%d" % i for i in range(1, 6)] + ["points%d" % i for i in range(1, 10)], bounds="1-5 phases; fixed: 1-9 points per phase, durations in [0.01,10]; step: symbolic step in [0.01,1] and phases of k + f steps, k from 2 to 7 (1 phase), 5 (2 phases), 3 (3 phases), 2 (4-5 phases), f in [0.01,0.99], or exactly k steps of 0.25."),
 "B12": dict(harness=["b12.cpp"], labels=["optimal", "not_optimal", "both", "lower", "upper", "unbounded", "six_variables", "unknown"] + ["via%d" % i for i in range(3)], bounds="1-3 variables, 0-2 inequalities, 0-2 equalities, or 6 variables, 1-5 inequalities, 0-2 equalities, all four bound presence patterns, five statuses of the routine, coefficients in [-3,3] (generic: no ties between symbolic coefficients), through the adapter and the two solve() forms on top of it; the QP routine itself is replaced by a recording stub with arbitrary answer."),
 "B13": dict(harness=["b13.cpp"], labels=["optimal", "not_optimal", "large", "five_variables", "zero0", "zero1", "zero2"] + ["bounds%d" % i for i in range(7)], bounds="1-3 variables, 0-2 inequalities, 0-1 equality (at least one row), or 5 variables, 0-4 inequalities and 0-2 equalities, seven bound patterns (absent, one-sided, both, fixed, infinite, mixed), three patterns of zero coefficients, five statuses, other coefficients in [-3,3]; one concrete problem with 42000 coefficients; GLPK itself is a recording stub with arbitrary answer."),
 "B15": dict(harness=["b15.cpp"], labels=["momentum", "plain", "discretised", "continuous", "failure"], bounds="%s, optimiser answer in [-8,8], one cone row, one kinematic row, no angular polytope, time in [0,T]." % ST),
 "B16": dict(harness=["b16.cpp"], labels=["momentum", "plain", "discretised", "continuous", "ang", "kin", "longstep"], bounds="states in [-5,5]^3, T in [1/4,4], continuous and 1-3 discretisation steps (time step T/(k+1/2)) and a step longer than T, 1-2 concrete asymmetric cone rows, 0-2 kinematic and angular rows with symbolic normals, mass in [1,90]."),
 "B09": dict(harness=["b09.cpp"], labels=["cost_" + f for f in COM] + ["cost0", "cost1", "cost2", "refused2", "refused3", "api0", "api1", "api2", "api3", "forces"], bounds="7 CoM flag sets, 4 cost selections, 4 formulations (fixed size with 1-3 samples per phase, time step 0.25 with fixed durations, continuous, force), 1-3 phases, states in [-5,5]^3, T in [1/2,4]; phases without constraint rows."),
 "B08": dict(harness=["b08.cpp"], labels=["force_" + f for f in COM] + ["acc", "noacc"] + ["pattern%d" % i for i in range(18)], bounds="7 CoM flag sets, 1-4 phases (two phases: any switch in [1/16,15/16] T) with 1-4 generators and 0-2 kinematic rows each in increasing, equal and decreasing patterns, states in [-5,5]^3, T in [1,6] split at fixed fractions, masses in [1,90], symbolic generators and kinematic normals, with and without acceleration bound."),
 "B11": dict(harness=["b11.cpp"], labels=["rows%d" % i for i in (0, 1, 2, 3, 4, 7)] + ["infeasible", "no_zero_row", "only_zero_rows", "some_zero_rows"], bounds="0-4 and 7 rows (of 7, four repeat the kind of the others), 1-3 columns (3 columns above 2 rows), every row zero with a negative, zero or positive right-hand side, full, or with a single coefficient; coefficients of magnitude [0.25,3], right-hand sides in [-5,5]."),
 "B18": dict(harness=["b18.cpp"], labels=["ee_" + f for f in JERK] + ["api%d" % i for i in range(3)] + ["solve"], bounds="3 flag sets, states in [-5,5]^3, T in [1/4,4], the default bounds through computeEndEffectorConstraints and solveEndEffector and arbitrary per-axis bounds in [0.1,50], with and without jerk."),
 "B20": dict(harness=["b20.cpp"], labels=["ee_" + f for f in JERK] + ["failure", "weighted", "smooth"], bounds="3 flag sets, states in [-5,5]^3, T in [1/8,8], optimiser answer in [-8,8], distance weight 0 or in [0.05,1], straight reference path."),
 "B19": dict(harness=["b19.cpp"], labels=["ee_" + f for f in JERK] + ["distance", "velocity", "samples1", "samples2", "samples3", "total", "solve"], bounds="3 flag sets, states in [-5,5]^3, T in [1/2,4], distance weight 0 or in [0.05,1], arbitrary quadratic reference paths, 3, 6 or 9 path samples (50 in the total cost), 2-4 derivative samples (for five free points relative to the library evaluation of the derivative, which is a known finding of B17)."),
 "B21": dict(harness=["b21.cpp"], labels=["supported", "unsupported", "mismatch", "capturability"], bounds="all 8192 combinations of the 13 flag bits, 17 public functions; 1-3 contacts and 1-4 durations; capturability targets with a component of magnitude in [1e-6,5]; states in [-5,5]^3, T in [1,4]."),
 "B14": dict(quick=dict(maxpaths=12000),thorough=dict(maxpaths=60000,total=3000),harness=["b14.cpp"], labels=["optimal_" + c for c in ("unconstrained", "interval", "box2", "general2", "acute2", "equality2", "full_equality2", "duplicate_rows", "opposite_rows", "general3", "equality3", "two_equalities3", "dependent3")] + ["active%d" % i for i in range(4)] + ["infeasible_interval", "redundant_redundant_equalities", "infeasible_given_scaled2", "infeasible_given_scaled3", "infeasible_given_scaled_drop2", "optimal_given_scaled2", "optimal_given_scaled3", "mode0", "mode1", "mode2", "optimal_sparse_arrow4"], bounds="strictly convex problems with 1-4 variables, 0-3 equalities and 0-3 inequalities (quick; 4-6 in thorough) on 23 fixed families of Hessians and constraint rows - generic, box, acute, duplicate, opposite, dependent, parallel to an equality, numerically dependent through bad scaling - with arbitrary linear cost and right-hand sides in [-4,4]; dense routine on all families, sparse routine and given inverse factor on eight."),
 "B24": dict(harness=["b24.cpp"], python=True, labels=["attribute%d" % i for i in range(14)] + ["com%d" % i for i in range(4)] + ["foot%d" % i for i in range(5)] + ["kin%d" % i for i in range(1, 6)] + ["mismatch", "mismatch_points", "success", "failure", "momentum", "plain", "discretised", "continuous"], bounds="every attribute of ProblemData, Constraints, ContactData and the results, every enumeration value and pair of flags; computeCOMTraj (7 flag sets, 1-2 phases, continuous and time step, 2 solvers), zeroStepCapturability (both signatures, 5 layouts of the kinematic vector), 5 end-effector functions (3 flag sets); values in [-9,9], T in [1/2,4]; C, Fortran and strided arrays. CPython, NumPy, boost::python and the compiled part of eigenpy run natively and only move the symbolic floats; contact dynamics, optimiser and Equilibrium class are stand-ins."),
 "B26": dict(harness=["b26.cpp", "b26q.cpp", "b26h.cpp"], labels=["history%d" % i for i in (0, 1, 2, 3, 4, 5, 6, 8)] + ["component%d" % i for i in range(30) if i != 26] + ["op%d" % i for i in range(9)] + ["then%d" % i for i in range(9)] + ["reuse%d" % i for i in range(6)] + ["status%d" % i for i in (0, 2, 4)], bounds="each of 30 components of the request changed alone between two calls and changed back (fresh objects and the same mutated objects); 81 ordered pairs of nine calls (four formulations, three phases, zero step with and without momentum, foot, refused), the first repeated twice and the second once; first request with states in [-5,5]^3, T in [1,4], masses in [1,90] and symbolic generators and kinematic rows, second request with symbolic states; 1-3 phases. QP objects: 36 pairs of six problems (1-3 variables, redundant and infeasible ones included), linear cost and one right-hand side in [-4,4]."),
 "B27": dict(harness=["b27.cpp", "b11.cpp", "b12.cpp", "b13.cpp", ["b14.cpp", "-DMEMORY=1"]], asan=True, labels=["com%d" % i for i in range(4)] + ["phases%d" % i for i in range(1, 5)] + ["mem_" + f for f in COM + ["j0_j1"]] + ["zero%d" % i for i in range(5)] + ["foot_" + f for f in JERK] + ["defaults%d" % i for i in range(6)] + ["solved", "failure", "large", "optimal_equality2"], bounds="8 CoM flag sets, 4 entry points and formulations, 1-4 phases, four patterns of 0-3 cone rows, 0-4 kinematic rows and 1-3 generators per phase; zero step with 0-3 cone, 0-2 kinematic and 0-2 angular rows and five time steps; 3 foot flag sets; problem data, contacts and constraints as default-constructed or partly set; initial position symbolic in [-5,5]^3, other data concrete (addresses and sizes do not depend on them except through the explored branches); normalisation, QP adapter, LP adapter and six QP problem families as in B11-B14. Accesses are checked by AddressSanitizer, container and matrix index assertions on every explored path."),
}
