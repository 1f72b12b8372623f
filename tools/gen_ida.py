HOOKS = {"guard": "verif_hooks", "enable": "the integrator is compiled by /verif/mc_ida/ida (path ../build/ida_src, a copy of /repo/src made by every check) with --features verif_hooks: setters for optional inputs that the crate has no public setter for (stop time, initial step, step bounds, order bound, step limit, mask, root directions). The checks of crates/linear and crates/nonlinear use no hook.", "source_commits": ["df4045342e4f70209a4e509b710f67e4859cbcae"]}
SOLVE = "src/impl_solve.rs"; STOP = "src/impl_stop_test.rs"; LIB = "src/lib.rs"; RC = "src/impl_r_check.rs"; CS = "src/impl_complete_step.rs"; LSF = "src/ida_ls.rs"; NLSF = "src/ida_nls.rs"; TOL = "src/tol_control.rs"; NR = "src/norm_rms.rs"; IO = "src/ida_io.rs"
STEPM = {"name": "one internal step with its retries", "where": LIB + ": step, set_coeffs, nonlinear_solve, test_error, restore, handle_n_flag, reset"}
EXT2 = "stateless model checking of the real integrator: every environment-answer sequence to a depth executed under a scripted solver and compared with a reference model"
SH = " The integrator sources (not members of the repository's workspace) are compiled unmodified against an ndarray/failure stand-in that is itself validated by the repository's recorded-trace unit tests."
prop("I01", "solve() returns the solution where it was asked for, stopping where it must",
 "In Normal mode a call returns the solution at exactly the requested output time, and in OneStep mode after exactly one internal step; no more internal steps are taken than needed, output times already covered are answered without a step, and no step goes past a stop time, which is reported once. A call that exceeds its step limit is an error at the point reached, output times that cannot be reached are refused without effect, and the values returned are those of the solution at the returned time.",
 ["histories"], "every history of Normal and OneStep calls, output times before, at, inside and beyond the last step, and stop-time settings, in both directions of integration",
 "No test calls solve(): only isolated helper routines are compared with recorded data.",
 [SOLVE, STOP, LIB], [{"name": "main driver", "where": SOLVE + ": solve"}, {"name": "stop tests", "where": STOP + ": stop_test1, stop_test2"}], "stateless model checking: all operation histories to a depth executed on the real integrator against a contract model",
 "All 13^5 histories (13 operations) over several step patterns; 13^4 after prefixes and under step limits. Accepted steps are scripted, so the exact solution polynomial is known." + SH,
 ["Ida::solve status, tret, get_yy, get_yp"], [{"name": "tretlast, tstop, tn, hh", "meaning": "where the solution is known and what was returned last", "where": LIB}], "verif_hooks: stop time and step limit")
prop("I02", "Every step is predicted by and corrected with its variable-order formula",
 "In every attempted step of order k the residual is evaluated along y = predictor + e and y' = predicted derivative + c_j e, where the predictor is the polynomial through the last k+1 accepted solutions, extrapolated to the new time, and c_j is the fixed leading coefficient of the formula over the step size. This holds at every change of order or step size and after any number of failed attempts, which leave no trace in the history.",
 ["fault_sequences", "histories"], "every sequence of nonlinear-solver outcomes and corrections: accepted steps, error test failures and convergence failures in any order",
 "The tests check single routines on one recorded state each; consistency of the whole step over order changes and retries is not tested.",
 [LIB, CS], [STEPM, {"name": "history update", "where": CS + ": complete_step"}], EXT2,
 "All answer sequences 12^4 after several prefixes, 4^8, and failure runs 2^14, four configurations; the reference polynomial is computed independently (Fornberg weights) from the accepted points. A failed first step rescales the initial derivative as in the C code." + SH,
 ["arguments of Residual::res in every attempt"], [{"name": "phi, psi, alpha, beta, sigma, gamma", "meaning": "modified divided differences and coefficients", "where": LIB}], "verif_hooks: initial step, step and order bounds")
prop("I03", "A step is accepted exactly when its error test holds, else retried by rule",
 "A converged step is accepted exactly when the weighted norm of its estimated local error does not exceed one. A failing step is retried from the same point with the reduced order and step size prescribed for that kind and number of failure; after the maximum number of error test or convergence failures, or an unrecoverable failure, the call returns that error with the solution and time of the last accepted step.",
 ["fault_sequences"], "every sequence of outcomes of the attempts: which fail, how, how often and by how much",
 "Tests call the error test once on recorded data; retry, order reduction and giving up are never reached.",
 [LIB, "src/error.rs", SOLVE], [STEPM], EXT2,
 "Same trees as I02; decisions within 1e-10 of a threshold may go either way." + SH,
 ["attempted times and orders; Ida::solve result"], [], "verif_hooks: initial step, step and order bounds")
prop("I04", "After every accepted step order and step size follow the selection rules",
 "The order for the next step is lowered, kept or raised according to the error estimates of the neighbouring orders, within the order bound and by at most one. The step size is doubled, kept or reduced (to between 0.5 and 0.9) by the error estimate of the chosen order, within the step bound; during start-up order and step size grow with every step.",
 ["histories", "fault_sequences"], "every sequence of accepted errors and failures",
 "One test compares one recorded update; the rules over histories, bounds and start-up exit are untested.",
 [CS, LIB], [{"name": "order and step selection", "where": CS + ": complete_step"}, {"name": "error estimates", "where": LIB + ": test_error"}], EXT2,
 "Same trees as I02; estimates are recomputed from divided differences of the accepted history." + SH,
 ["get_current_order, next step size, orders and sizes attempted"], [], "verif_hooks: initial step, step and order bounds")
prop("I05", "Dense output is the interpolating polynomial of the last step",
 "At any time within the last step, the solution, its derivative and every derivative up to the order last used are those of the polynomial of that order through the last accepted solutions. Times outside the last step and derivatives beyond the order are refused, and asking never changes how the integration continues.",
 ["histories", "inputs"], "every history of steps, every time in the last step and every derivative",
 "Interpolation of y is tested on one recorded state; derivatives (which were wrong, fixed) and refusals are untested.",
 [LIB], [{"name": "interpolation", "where": LIB + ": get_solution, get_dky"}], EXT2,
 "All 5^5 answer sequences after five prefixes, orders 1-5, both directions, five points per step, all derivatives." + SH,
 ["get_solution, get_dky, get_yy, get_yp"])
prop("I06", "The Jacobian in use is evaluated and refactored when the rules demand it",
 "The Jacobian is evaluated at the current time, iterate and leading coefficient, into a cleared matrix, and given to the linear solver before any solve that uses it: in the first step, when the leading coefficient has changed by more than the threshold since the last setup, and when an iteration with an old matrix fails. It is not evaluated otherwise; a matrix that cannot be factored makes the step recoverably fail.",
 ["fault_sequences", "histories"], "every sequence of linear-solver outcomes: sizes of corrections, failing setups, failing solves",
 "No test runs the nonlinear solver with failures or over several steps.",
 [LIB, LSF, NLSF, "crates/nonlinear/src/newton.rs"], [{"name": "decision to set up", "where": LIB + ": nonlinear_solve"}, {"name": "setup and solve", "where": LSF + ": IdaLProblem::setup, solve"}, {"name": "nonlinear problem", "where": NLSF + ": IdaNLProblem"}], EXT2,
 "All answer sequences 7^5/7^6 after 0, 3 and 8 easy steps, failing setups 2^6 and repeated words, with the real Newton solver and four configurations." + SH,
 ["Jacobian::jac and LSolver calls and arguments"], [{"name": "cj, cjold, cjratio", "meaning": "leading coefficient now and at the last setup", "where": LSF}], "verif_hooks: initial step, step and order bounds")
prop("I07", "Every root of the event functions is returned once, in order, and in place",
 "While integrating, every sign change or isolated exact zero of a monitored event function is reported exactly once and in order, at a time not before it and within the root tolerance after it, with the solution at that time. The reported flags name exactly the functions with a root there, with +1 for increasing and -1 for decreasing ones; functions watched in one direction only are reported in that direction only, and nothing else is reported.",
 ["inputs", "histories"], "every placement of sign changes and touching zeros of one or two event functions relative to steps, output and stop times, in both directions and all ways of calling",
 "No test runs the root finder.",
 [RC, SOLVE], [{"name": "root checks and Illinois search", "where": RC + ": r_check1, r_check2, r_check3, root_find"}], "bounded exhaustive model checking of the real integrator: every placement of zeros in a grid executed and compared with the exact roots",
 "One function: 6^3 placements x 7 shapes x signs x directions x filters x 4 ways of calling x 3 stop times; two functions: 5^6; functions zero at the start; curved functions of y. Roots closer together than the tolerance are not distinguished; decreasing-only filters cannot be requested (unsigned type)." + SH,
 ["Ida::solve status, tret, get_root_info, get_yy"], [{"name": "glo, ghi, tlo, thi, gactive, irfnd", "meaning": "search interval, values at its ends, active functions", "where": RC}], "verif_hooks: stop time, unit steps, direction filters")
prop("I08", "Weights, norms, the first step and accuracy limits follow their definitions",
 "The error weights of every step are the reciprocals of rtol times the magnitude of the last accepted solution plus atol, for scalar and vector tolerances, and the norm is the weighted root mean square over all components or, masked, the differential ones. The first step follows the documented rule (given, or from the output distance and derivative norm, bounded by the maximum step and stop time); unusable weights, too tight tolerances, and inputs that cannot start are refused.",
 ["inputs", "histories"], "every combination of tolerances, solutions, masks, step bounds, stop and output times; weights over histories of accepted and failed attempts",
 "Tests check the norm on constant vectors only; weights, first step and refusals are untested.",
 [TOL, NR, SOLVE, LIB], [{"name": "weights", "where": TOL + ": ewt_set"}, {"name": "norms", "where": NR}, {"name": "first call", "where": SOLVE + ": solve (first-call block)"}], "bounded exhaustive model checking of the real code: every combination of input alphabets executed and compared with the definitions",
 "Alphabets of 3-9 values per input; weights of every attempt over 4^7 answer sequences." + SH,
 ["weights passed to the nonlinear solver; first attempted time; solve result"], [], "verif_hooks: stop time, initial step, maximum step, mask")
prop("I09", "Statistics and reported step data equal what actually happened",
 "After every call, the numbers of steps, residual, Jacobian and root-function evaluations, linear setups and iterations, nonlinear iterations, error test failures and convergence failures equal the events that occurred since the start. The reported last order and step, next order and step, initial step and current time are those used by the steps actually taken and attempted next.",
 ["histories", "fault_sequences"], "every sequence of step outcomes and of linear-solver outcomes, in all ways of calling",
 "No test reads a counter.",
 [IO, LIB, NLSF, LSF], [{"name": "counters and getters", "where": IO}], EXT2,
 "Step answers 6^6, 6^5 after a prefix, runs of equal answers, linear-solver answers 6^6, direct and iterative linear-solver types." + SH,
 ["get_num_*, get_last_*, get_current_*, get_actual_init_step"], [{"name": "IdaCounters", "meaning": "counters", "where": LIB}])
prop("I10", "The sample problems are the systems their documentation describes",
 "The residual of the Robertson problem is the documented kinetics, its Jacobian is the derivative of that residual with respect to y plus c_j times that with respect to y', and its event functions are the documented thresholds. The slider-crank residual is the stabilised index-2 formulation of the mechanism's geometry, masses, spring-damper and force.",
 ["inputs"], "every state, derivative and leading coefficient",
 "The sample problems are only used at recorded states; no test relates Jacobian and residual or the mechanism and its equations.",
 ["src/sample_problems/roberts.rs", "src/sample_problems/slider_crank.rs"], [{"name": "residuals, Jacobian, roots", "where": "src/sample_problems/"}], "bounded exhaustive model checking of the real code: every state of a grid evaluated and compared with an independent derivation (automatic differentiation)",
 "Grids of 30k and 250k states; the residuals are polynomial or trigonometric, so the grids separate terms." + SH,
 ["Residual::res, Jacobian::jac, Root::root"])
prop("I12", "The nonlinear iteration of a step converges and fails by the documented test",
 "Within a step, the iterates are the predictor plus the sum of the corrections (scaled for the change of the leading coefficient for direct solvers), the right-hand side is the negated residual there, and the iteration ends as converged, diverging or exhausted exactly by the documented rate test. Failure leads to one attempt with a fresh matrix if the old one was stale, else to a smaller step.",
 ["fault_sequences", "histories"], "every sequence of linear-solver outcomes: sizes of corrections, failing setups, failing solves, over several steps",
 "No test iterates more than once or over more than one step.",
 [NLSF, LSF, LIB, "crates/nonlinear/src/newton.rs"], [{"name": "convergence test", "where": NLSF + ": ctest"}, {"name": "correction scaling", "where": LSF + ": IdaLProblem::solve"}], EXT2,
 "Same spaces as I06; decisions within 1e-9 of a threshold are not judged." + SH,
 ["Residual::res and LSolver::solve calls and arguments"], [{"name": "ss, oldnrm", "meaning": "convergence rate estimate kept between steps", "where": NLSF}], "verif_hooks: initial step, step and order bounds")
prop("I11", "The computed solution is as accurate as the tolerances ask for",
 "Integrating a well-conditioned problem, the global error at every returned time is a modest multiple of the requested tolerance and shrinks as the tolerance is tightened; events and stop times are where the exact solution has them. The internal steps do not depend on output times or on the way of calling.",
 ["inputs", "configurations"], "every problem, tolerance, direction of integration, set of output times, events, stop times and way of calling",
 "No test integrates anything: a wrong coefficient that only costs accuracy or a lost order passes every unit test.",
 [LIB, CS, SOLVE, STOP, RC, LSF, NLSF, "crates/nonlinear/src/newton.rs", "crates/linear/src/dense.rs"], [STEPM, {"name": "main driver", "where": SOLVE + ": solve"}], "bounded exhaustive model checking of the real code: every configuration of a finite space integrated with the real solvers and compared with exact solutions and with each other",
 "Seven problems with known solutions (stiff, nonlinear, differential-algebraic, badly scaled) x 7 tolerances x 2 directions x 4 ways of calling x all subsets of output times; the Robertson problem against the published table. Error bounds are 1.5-2 times the worst seen (12 to 120 tolerances), so loss of a few percent of accuracy stays quiet." + SH,
 ["get_yy, tret, status, get_root_info, Residual::res and Jacobian::jac arguments"], [], "verif_hooks: initial step, step limits, stop time")
prop("I13", "The integrator has no built-in scale, direction or order of components",
 "Reversing time, changing the unit of time, of each component or of the residual, reordering or duplicating the components of a problem changes everything observable accordingly and nothing else. In particular step sizes, orders, roots, counters, dense output and failures are the images of those of the original problem.",
 ["inputs", "histories", "fault_sequences"], "every problem, history of step outcomes and change of representation",
 "A missing absolute value, an absolute threshold or a component treated specially only shows on the image of a problem that ordinary tests do not include.",
 [LIB, CS, SOLVE, STOP, RC, TOL, NR, LSF, NLSF], [STEPM, {"name": "root checks", "where": RC}], "stateless model checking: every answer sequence to a depth executed on the real integrator for a problem and each of its images, and the two histories compared",
 "6^5 answer sequences x 4 configurations x 8 images from the start, 6^4 after seven steps, one and two components; the problems of I11 with the real solvers, 13 tolerances, 10 images. Units change by powers of two so that rounding commutes." + SH,
 ["all callback arguments, results and getters"], [], "verif_hooks: initial step, step and order bounds, step limit, mask")
