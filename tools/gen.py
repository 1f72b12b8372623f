#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (authoring aid; not used by any check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "crates/linear/src/dense.rs"; N = "crates/nonlinear/src/newton.rs"; NT = "crates/nonlinear/src/traits.rs"; NW = "crates/nonlinear/src/norm_wrms.rs"
P = []
def prop(id, title, stmt, over, qtext, why, files, mech, technique, note, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or [], state=state or [], hook=hook))

RF = {"name": "Gaussian elimination with partial pivoting", "where": D + ": dense_get_rf"}
RS = {"name": "permute, forward and back substitution", "where": D + ": dense_get_rs"}
LS = {"name": "setup/solve of the direct solver", "where": D + ": impl LSolver for Dense"}
NS = {"name": "Newton loop and retry rule", "where": N + ": Newton::solve"}
EXH = "bounded exhaustive model checking of the real code: every case of a finite space executed and judged by an exact-arithmetic model"
EXT = "stateless model checking of the real code: every environment-answer tree explored exhaustively against a reference automaton"

prop("L01", "A successful dense factorization is an exact pivoted LU factorization",
 "Whenever the dense direct solver accepts a square matrix, what it leaves in the matrix is a unit lower triangular factor and an upper triangular factor whose product is a row permutation of the original matrix. The factorization uses partial pivoting: no multiplier exceeds one in magnitude and every pivot is a largest candidate of its column.",
 ["inputs"], "every square matrix of every size whose factorization succeeds",
 "Two 3x3 matrices and one 4x4 matrix are factored by the tests; the guarantee ranges over all matrices, zero patterns and all n! orders of row interchanges, including n>3.",
 [D], [RF], EXH,
 "Every matrix of the stated finite families is factored by the real generic code in exact rational arithmetic and PA=LU is checked as an identity; bounded in n and in entry alphabet. Trusts the 128-bit rational type (overflow poisons the case).",
 ["matrix contents after LSolver::setup"])
prop("L02", "Solving with a factored matrix returns the solution of the original system",
 "After a successful setup, solving for any right-hand side yields the vector that satisfies the original, unfactored linear system. The right-hand side and the factored matrix are left unchanged, so any number of right-hand sides can be solved after one setup.",
 ["inputs"], "every non-singular matrix, every right-hand side, every order of row interchanges",
 "Tests solve for three right-hand sides with fixed pivots; a wrong permutation order or skipped entry only shows for particular interchange patterns and sizes.",
 [D], [RS, LS], EXH,
 "Exact rational arithmetic, full basis of right-hand sides for each matrix (linearity covers the rest), all pivot orders to n=7 and interchange patterns to n=33.",
 ["x, b and A after LSolver::solve"])
prop("L03", "Singular matrices are rejected with the failing column, others never",
 "Setup succeeds exactly when the matrix is non-singular in the arithmetic used. When it fails, the error reports the one-based index of the first column in which elimination finds no non-zero pivot.",
 ["inputs"], "every square matrix, singular at every possible elimination step and non-singular",
 "No test factors a singular matrix, so neither the rejection nor the column it reports is exercised.",
 [D, "crates/linear/src/lib.rs", "crates/linear/src/traits.rs"], [RF, {"name": "LUFactFail", "where": "crates/linear/src/lib.rs: Error"}], EXH,
 "Rank decided by exact arithmetic; the zero pivot is forced in every column under every interchange order up to n=5 (and interchange patterns up to n=12); f64 cases are chosen so that elimination is exact.",
 ["LSolver::setup result"])
prop("L04", "A direct solver reused over any history behaves as a fresh one",
 "What a setup or solve returns depends only on the matrix last set up successfully or unsuccessfully and the right-hand side, never on earlier setups, failures, solves or on other or cloned solver instances. A new solver is immediately usable after its first successful setup.",
 ["histories"], "every sequence of setups (succeeding and failing), solves and clones over two solver instances",
 "Each test uses one solver once; stale pivots only show when a solver is reused with a different interchange pattern.",
 [D], [LS], "stateless model checking: all operation histories to a depth executed on the real code against an exact model",
 "All histories to depth 4 (5 in thorough) over an alphabet that covers failing, permuting and non-permuting matrices, plus all ordered pairs of matrices of a family.",
 ["LSolver::setup/solve results"], [{"name": "pivots", "meaning": "row interchanges of the last setup", "where": D}])
prop("L05", "Floating-point solves are backward stable for every scaling of the matrix",
 "In floating point, single or double precision, the computed solution satisfies the original system with a residual that is a modest multiple of machine precision times the magnitudes involved, however badly scaled or close to singular the leading entries are. Scaling the whole system by a power of two does not change the solution.",
 ["inputs"], "every matrix and right-hand side in a wide range of magnitudes",
 "Tests have well-scaled data; losing or weakening pivoting only shows for tiny leading entries at particular elimination steps.",
 [D], [RF, RS], EXH,
 "Every matrix of families with entries from 1e-30 to 1e30 and graded matrices; residual judged in double-double/exact arithmetic against a bound with a generous constant, so legitimate reorderings of operations stay quiet.",
 ["x after LSolver::solve"])
prop("L06", "The dense solver respects strided views and touches nothing outside them",
 "Factoring and solving through sub-matrix views with any offset and stride gives the same result as with owned matrices. Memory cells outside the views are never modified.",
 ["inputs", "configurations"], "every matrix, layout (offset, row and column stride) and right-hand side",
 "Tests only use owned, contiguous storage, so indexing that assumes contiguity would pass.",
 [D], [RF, RS, LS], EXH,
 "Guard cells around every view; layouts and matrices enumerated exhaustively within bounds.",
 ["backing buffers of the views"])

prop("N01", "The Newton solver drives its problem callbacks in the documented order",
 "For every sequence of callback outcomes, the residual is evaluated at the current iterate before each linear solve, the linear setup runs exactly when requested or when retrying, the linear system is solved with the negated residual, the iterate is advanced by exactly the computed correction, and the convergence test sees that iterate, correction, tolerance and weights unchanged. No callback is made after the call has its result.",
 ["fault_sequences", "histories"], "every sequence of callback outcomes (success, converged, recoverable, unrecoverable at every call) for every flag and iteration limit, over consecutive solves",
 "The one test is a single run in which everything succeeds at once.",
 [N, NT], [NS], EXT,
 "All environment-answer trees for 1..3 consecutive solves with iteration limits 0..4, callback arguments compared bit for bit with a reference automaton.",
 ["NLProblem::{sys,setup,solve,ctest} calls and arguments"])
prop("N02", "A failed solve is retried exactly once, and only with a stale Jacobian",
 "A recoverable failure leads to one further attempt from the initial guess, with the linear setup called and told that the Jacobian is bad, exactly when the Jacobian in use was not refreshed during this call's attempt. A failure with a fresh Jacobian, after the retry, or of an unrecoverable kind is never retried.",
 ["fault_sequences", "histories"], "every sequence of callback outcomes and every reported Jacobian state, over consecutive solves",
 "No test produces a failure, a stale Jacobian or a second solve.",
 [N], [NS], EXT,
 "Same exhaustive trees as N01, monitoring only attempts, setup flags and their cause.",
 ["NLProblem::setup calls"], [{"name": "jcur", "meaning": "Jacobian is current", "where": N}])
prop("N03", "Every Newton solve terminates within its iteration limit",
 "Whatever the problem answers, a solve makes at most two attempts of at most the configured number of iterations (at least one) each and then returns. Exceeding the limit is reported as a recoverable convergence failure.",
 ["fault_sequences", "histories"], "every sequence of callback outcomes, every iteration limit, every solver history",
 "The test converges in three iterations; no test reaches the iteration limit or a retry, where an endless loop existed (fixed in 54370bf).",
 [N], [NS], EXT,
 "Trees as in N01 plus scripted long histories; a work budget turns non-termination into a counterexample.",
 ["number of callbacks per solve"])
prop("N04", "A Newton solve reports the true outcome and returns the tested iterate",
 "Success is reported exactly when the convergence test accepted the iterate that is returned, and the returned solution is the initial guess plus the sum of all corrections of the successful attempt. Otherwise the error is the one of the callback that ended the last attempt (or a recoverable convergence failure at the iteration limit), unchanged.",
 ["fault_sequences", "histories"], "every sequence of callback outcomes and corrections",
 "The single test never fails and never retries, so error propagation and restart from the guess are unexercised.",
 [N, "crates/nonlinear/src/lib.rs"], [NS], EXT,
 "Trees as in N01, monitoring only result and solution vector in exact dyadic f64 arithmetic.",
 ["result and y of NLSolver::solve"])
prop("N05", "Newton statistics count exactly the work done",
 "The total iteration count equals the number of linear-solve iterations over all solves, the current count equals the iterations without convergence of the last attempt, and the failure count grows by one for every failed attempt and never on success. Counters are never reset by a solve.",
 ["fault_sequences", "histories"], "every sequence of callback outcomes over consecutive solves",
 "Tests print the counters but never assert them, least of all after failures.",
 [N, NT], [NS, {"name": "get_num_iters, get_cur_iter, get_num_conv_fails", "where": N}], EXT,
 "Trees as in N01, monitoring only the counters; also read inside the convergence test.",
 ["NLSolver::get_num_iters/get_cur_iter/get_num_conv_fails"])
prop("N06", "A Newton solve depends on earlier solves only through the Jacobian state",
 "A solver that was used before, in any way, or cloned from a used one, makes the same calls and returns the same result as a fresh solver given the same problem, except for the retry decision that a Jacobian refreshed by an earlier unsuccessful call may change. Separate instances never influence each other.",
 ["histories", "fault_sequences"], "every history of a previous solve and every behaviour of the next one",
 "Only one solve is ever run per solver in the tests.",
 [N], [NS], EXT,
 "All pairs of (history, next solve) trees, comparing a used, a cloned and a fresh solver.",
 ["callback traces"])
prop("N07", "Newton with the dense solver solves the system it reports converged",
 "With the dense direct solver as linear solver, a solve of a linear system with its true Jacobian converges to the exact solution, also when it starts with a stale or wrong Jacobian that a retry refreshes. A singular Jacobian surfaces as an unrecoverable linear-setup error carrying the column, never as success or a panic.",
 ["inputs", "histories"], "every linear system, starting point and stale Jacobian of the family; nonlinear systems from a grid of starting points",
 "One nonlinear system from one starting point is tested.",
 [N, D, "crates/nonlinear/src/lib.rs"], [NS, RF, RS, {"name": "From<linear::Error>", "where": "crates/nonlinear/src/lib.rs: Error::LinearSetupFailed"}], EXH,
 "Every system of the families solved in exact rational arithmetic and compared with an independent model of Newton iteration; f64 nonlinear grid judged by residual.",
 ["result and y of NLSolver::solve"])
prop("W01", "The weighted RMS norm equals its definition for vectors of every length",
 "The norm of a vector with given weights is the square root of the mean of squared products of component and weight, over the full length of the vector, as far as squares neither overflow nor underflow. It is never negative, is zero exactly for a zero weighted vector, and a non-finite component is never hidden.",
 ["inputs"], "every vector and weight vector of every length",
 "Tests use one vector of equal components, for which dropping, repeating or mis-pairing entries gives the same value.",
 [NW], [{"name": "norm_wrms", "where": NW}], EXH,
 "Every vector over a component alphabet up to n=7, spikes at every position of every length to 64, exact (integer) and high-precision oracle, a few ulps of slack for summation order.",
 ["NormWRMS::norm_wrms"])
exec(open(os.path.join(V, "tools", "gen_ida.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_ida.py")) else None

NA = []
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["stmt"].count(". ") <= 2, (p["id"], p["stmt"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["stmt"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
 "hooks": HOOKS if "HOOKS" in globals() else {"guard": "none", "enable": "no hooks: the checks use only the public API of the crates in /repo", "source_commits": []},
 "not_applicable": NA,
 "notes": "Exit 0 held, 1 violation, anything else: the check could not run (for example /repo does not compile). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
