#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one dict per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SPACES = ["src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs"]

prop("C01", "Applying a cut never discards a point that satisfies the cut",
 "For every history of cuts applied to a search region of dimension two or more, every point of the current region that satisfies the next cut (one-sided or two-sided with non-negative leading offset, or with a leading plane slightly behind the centre where the cut still admits a smaller ellipsoid; centre-passing; or an arbitrary-offset discrete cut) still lies in the region after the cut, and the region stays a finite, non-degenerate ellipsoid. "
 "A cut that no point of the region satisfies is reported as having no solution, and a cut that some interior point satisfies is never reported that way. "
 "The region a constructor describes by its scale, shape matrix and centre is the region the search starts from, in every ellipsoid implementation.",
 ["histories", "inputs", "configurations"],
 "all cut sequences (kind, gradient, offsets, interleaved clones and re-centrings) over all initial ellipsoids, dimensions and both ellipsoid implementations, within the conditioning range where f64 can represent the region",
 "Unit tests apply one or two fixed cuts to a ball in dimension four and compare numbers; losing a feasible point needs a particular mixture of cut kinds, offsets, dimension and shape after several steps.",
 SPACES,
 [("rank-one update of the full shape matrix", "src/ell.rs Ell::update_core"), ("rank-one update of the LDL^T factors", "src/ell_stable.rs EllStable::update_core"), ("cut formulas and status rules", "src/ell_calc.rs EllCalc"), ("initial region", "constructors of Ell and EllStable")],
 ["centre and squared half-width reported by the region after each cut", "status returned by the update calls"],
 [("shape matrix / factors, scale, centre", "the region {x : (x-c)^T P^-1 (x-c) <= 1}", "src/ell.rs, src/ell_stable.rs")])

prop("C02", "Accepted cuts shrink the region to the smallest enclosing ellipsoid",
 "Whenever a cut whose leading plane meets the region is accepted, the new region is the minimum-volume ellipsoid containing the surviving slice of the old region (or, where a two-sided cut's far side does not bound the region, of the half it leaves), so its volume never grows and drops at least by the classical factor exp(-1/(2(n+1))) for every cut that excludes or touches the centre. "
 "Such a cut is reported as having no effect only when no smaller enclosing ellipsoid exists.",
 ["histories", "inputs", "configurations"],
 "all cut sequences over all initial ellipsoids, dimensions from two up and both implementations",
 "Tests compare the formulas at a handful of offsets in dimension four; a formula that is merely valid (contains the slice) but too large, or right only for some dimensions or offset ranges, passes them while convergence silently degrades.",
 SPACES,
 [("optimal rho/sigma/delta for single, central and parallel cuts", "src/ell_calc.rs EllCalcCore"), ("choice between single and parallel formulas", "src/ell_calc.rs EllCalc")],
 ["volume and shape of the region before and after each cut, reconstructed from the reported squared half-widths"])

prop("C03", "A rejected cut leaves the search region exactly as it was",
 "When a cut is answered with any status other than success (no solution, no effect, or a reply that carries no direction, i.e. an all-zero gradient with zero offset), the region is exactly unchanged: its centre and its reaction to every later cut are identical to those of a copy that never saw the rejected cut. "
 "This holds for any number of rejected cuts at any points of any history.",
 ["histories", "fault_sequences", "configurations"],
 "all histories in which rejected, infeasible, redundant or direction-less cuts are injected between ordinary ones, both implementations",
 "Existing tests apply one no-effect cut to a fresh ball and look at the fields; corruption that only shows in the next cut's factor update, or only off a diagonal shape, is never exercised.",
 SPACES,
 [("early return before mutation", "src/ell.rs and src/ell_stable.rs update_core"), ("factor scratch kept apart from live factors", "src/ell_stable.rs update_core")],
 ["centre, statuses and half-widths of later cuts, compared bit for bit with an untouched replica"])

prop("C04", "All ellipsoid implementations stay in agreement on one cut history",
 "Fed the same start and the same sequence of cuts, re-centrings, rejected cuts and clone/restore events, the plain ellipsoid, the plain ellipsoid with immediate scaling, and the factored (stable) ellipsoid return the same statuses and, up to rounding proportional to the region's conditioning, the same centre, the same half-width in every direction and the same volume, all equal to an independent textbook implementation of the update. "
 "The publicly readable shape matrix, scale and half-width of the plain ellipsoid always describe that same region.",
 ["histories", "crash_points", "configurations"],
 "all shared cut logs with replicas crashing and being restored from clones, and options toggled, at arbitrary points",
 "Tests check each implementation separately on one update from a ball, where off-diagonal factors are zero; divergence needs several non-axis-aligned cuts.",
 SPACES,
 [("three storage schemes of the same update", "src/ell.rs update_core (with and without deferred scaling), src/ell_stable.rs update_core"), ("shared cut calculator", "src/ell_calc.rs")],
 ["statuses, centres, half-widths along arbitrary directions; public fields of the plain ellipsoid"])

prop("C05", "The feasibility driver follows its query/cut/stop protocol exactly",
 "For every oracle and search space, the feasibility driver queries the oracle at the space's current centre, applies each returned cut exactly once and unmodified as an ordinary (non-central, non-discrete) cut, returns the very centre the oracle accepted together with the number of cuts applied, and otherwise returns no point. "
 "It stops without a point exactly at the first cut whose status is not success or after which the region measure is strictly below the tolerance (reporting the zero-based index of that cut), or after exactly the budgeted number of queries (reporting the budget), and makes no further query or cut after deciding.",
 ["histories", "fault_sequences", "configurations"],
 "all oracle reply sequences, space status/measure sequences, budgets (including zero) and tolerances, with oracle panics injected at arbitrary calls",
 "Tests run the driver to completion on a few well-behaved problems; the stop rules at the exact boundary, the zero budget, odd status orders and panicking oracles are never reached.",
 ["src/cutting_plane.rs"],
 [("feasibility loop", "src/cutting_plane.rs cutting_plane_feas")],
 ["sequence of oracle and space calls seen by instrumented implementations of the public traits", "returned pair"])

prop("C06", "The optimisation driver follows its protocol and keeps the true incumbent",
 "For every oracle and search space, the optimisation driver queries the oracle at the current centre with the caller's best-so-far value, applies a centre-passing cut exactly when the oracle reports an improvement and an ordinary cut otherwise, once each and unmodified, and returns as incumbent exactly the most recent query point at which an improvement was reported (or none), leaving the caller's best value exactly as the oracle last set it. "
 "It stops exactly at the first cut whose status is not success or after which the measure is strictly below tolerance (reporting that cut's zero-based index), or after exactly the budgeted number of queries (reporting the budget).",
 ["histories", "fault_sequences", "configurations"],
 "all oracle reply sequences, space status/measure sequences, budgets and tolerances, with oracle panics injected at arbitrary calls",
 "Tests check final values of a few convex problems; an incumbent taken from the wrong iteration, a lost update in the last permitted iteration, or a wrong cut kind that still converges is invisible to them.",
 ["src/cutting_plane.rs"],
 [("optimisation loop", "src/cutting_plane.rs cutting_plane_optim")],
 ["sequence of oracle and space calls seen by instrumented trait implementations", "returned pair and best value"])

prop("C07", "The discrete driver retries, stops and reports incumbents by its protocol",
 "For every oracle and search space, the discrete-optimisation driver queries at the current centre, applies every returned cut exactly once as a discrete cut, tells the oracle to retry exactly when the immediately preceding cut had no effect, and returns the candidate attached to the most recent improving reply (or none). "
 "It stops exactly at the first cut reported as having no solution, or having no effect with no further alternative on offer, or after which the measure is strictly below tolerance (reporting the zero-based index), or after exactly the budgeted number of queries. "
 "A search space that defines no discrete cut of its own treats it as an ordinary cut.",
 ["histories", "fault_sequences", "configurations"],
 "all reply sequences (improved / alternative available / cut), all success, no-effect and no-solution status sequences, measures, budgets and tolerances, with oracle panics injected",
 "One fixed two-variable problem is run to a regression count; retry handling after improvement, exhausted alternatives and stops combined with tolerance are never separated.",
 ["src/cutting_plane.rs"],
 [("discrete loop with retry flag", "src/cutting_plane.rs cutting_plane_optim_q"), ("default discrete cut", "src/cutting_plane.rs SearchSpace::update_q")],
 ["sequence of oracle and space calls seen by instrumented trait implementations", "returned pair and best value"])

prop("C08", "Bisection probes midpoints and hands back the bracket it established",
 "For every sequence of yes/no answers, bisection probes exactly the midpoint of the bracket implied by the answers so far, stops exactly when half the bracket is below the tolerance or the probe budget is spent, and reports the number of probes and whether any probe succeeded. "
 "On return the caller's interval is the bracket implied by all answers: its upper end is the lowest value found feasible (or the original end) and its lower end the highest value found infeasible. "
 "It works for monotone oracles, for answers flipped by faults, and leaves the interval well ordered when the oracle panics midway.",
 ["histories", "fault_sequences", "inputs"],
 "all answer sequences, brackets, tolerances and budgets, including panicking probes",
 "Tests look only at the flag and the count for one monotone oracle; the probed values and the bracket are never observed.",
 ["src/cutting_plane.rs"],
 [("bisection loop", "src/cutting_plane.rs bsearch")],
 ["probed values, returned pair, caller's interval"])

prop("C09", "A bisection probe starts afresh and only re-centres the region on success",
 "Each probe made through the bisection adaptor first tells the feasibility oracle the probed level, then searches from a private copy of the adaptor's region, and answers yes exactly when that search found a feasible centre. "
 "After a yes the adaptor's region differs from before only in its centre, which is the accepted point; after a no, or after the oracle panicked midway, the region is exactly as before. "
 "Hence after a bisection that reports success the adaptor's centre is a point its oracle accepted at the reported upper end.",
 ["histories", "fault_sequences", "crash_points", "configurations"],
 "all level sequences, oracle behaviours (including panics and spurious infeasibility) and regions, both implementations and stub spaces",
 "One test bisects one convex problem; what failed or crashed probes leave behind, and whether the next probe starts from the full region, is never examined.",
 ["src/cutting_plane.rs"],
 [("probe on a cloned region, re-centre on success", "src/cutting_plane.rs BSearchAdaptor::assess_bs")],
 ["oracle call log, adaptor's region before and after each probe, probe answers"])

prop("C10", "An interrupted and resumed search equals the uninterrupted one",
 "Cancelling a feasibility or optimisation run by its budget, or losing it to an oracle panic, at any iteration and continuing with the same region, oracle and best value - or with clones of the region taken at the last completed cut, on any thread - produces the same remaining queries, final region, best value and last incumbent, bit for bit, as one uninterrupted run. "
 "The number of cuts applied over all segments equals that of the uninterrupted run.",
 ["crash_points", "schedules", "histories"],
 "all cut-off budgets, panic points, clone/restore points and thread migrations over runs with library and generated oracles and both implementations",
 "No existing test resumes a run, clones a region in mid-run or lets an oracle panic.",
 ["src/cutting_plane.rs", "src/ell.rs", "src/ell_stable.rs"],
 [("all driver state lives in the caller's region, oracle and best value", "src/cutting_plane.rs drivers"), ("deep clone of regions", "Clone for Ell and EllStable")],
 ["query sequence, final region reaction, best value, incumbent"])

prop("C11", "Concurrent solver sessions never influence one another",
 "Any number of solver sessions, each with its own region and oracle, interleaved at every oracle callback on separate threads, moved between threads, or nested inside one another's callbacks, each make the queries and return the result they make and return when run alone, bit for bit. "
 "This holds while other sessions panic, are abandoned, or run the bundled oracles on different problems.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of sessions at callback granularity, with nesting, panics and abandonment injected",
 "Every existing test runs one session at a time and none re-enters the solver from a callback.",
 ["src/cutting_plane.rs", "src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs", "src/oracles", "src/quasicvx.rs"],
 [("no shared mutable state", "whole crate")],
 ["per-session query log and result compared with the solo run"])

prop("C12", "Feasibility search succeeds within the volume-bound number of cuts",
 "If the feasible set contains a ball of radius r that lies in the initial region and the oracle answers every query either with acceptance of a feasible point or with a valid cut that excludes or touches the query point, the search returns a feasible point after at most 2(n+1)·ln(vol(initial region)/vol(ball)) + 1 cuts, whichever violated constraint is returned each time and however deep, shallow or two-sided the cuts are. "
 "The same budget holds across any number of cancellations and resumptions, and the search never reports that no solution exists.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "all feasible polyhedra with a known inscribed ball, all constraint-selection schedules (adversarial, random, round-robin), cut depths and interruptions, both implementations",
 "Tests check that a few problems converge within a generous fixed budget; a worst-case bound over adversarial constraint choices cannot be sampled by fixed examples.",
 ["src/cutting_plane.rs"] + SPACES,
 [("volume reduction per cut", "src/ell_calc.rs"), ("feasibility loop", "src/cutting_plane.rs cutting_plane_feas")],
 ["number of cuts until acceptance, returned point"])

prop("C13", "Optimisation closes the gap at the guaranteed rate and never lies",
 "Minimising a linear objective over a polyhedron with a known optimum, with any schedule of violated-constraint choices, the best value never falls below the true optimum, always equals the objective at the returned incumbent, which satisfies every constraint, and its gap to the optimum after k cuts is within the classical volume bound for the ellipsoid method. "
 "This holds across cancellations and resumptions and for both ellipsoid implementations.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "all bounded linear programs with a known optimum and inscribed ball, all constraint-selection schedules, cut depths and interruptions",
 "Tests compare a final value with a literal for three problems; neither the rate nor the soundness of the incumbent under adversarial replies is checked.",
 ["src/cutting_plane.rs"] + SPACES,
 [("optimisation loop", "src/cutting_plane.rs cutting_plane_optim"), ("volume reduction per cut", "src/ell_calc.rs")],
 ["best value and incumbent after every cut budget"])

prop("C14", "The filter-design oracle judges every query correctly whatever came before",
 "For every query history (repeated, poisoned with non-finite numbers, interleaved between solver sessions, or crashed), the low-pass filter oracle accepts a point exactly when it meets all pass-band, stop-band and non-negativity specifications at the current stop-band level, and otherwise returns a cut that is the exact linearisation, with the right one- or two-sided offsets, of a specification that point violates. "
 "In optimisation mode an accepted point sets the best stop-band level to the true maximum stop-band response at that point, with a centre-passing two-sided cut on a frequency attaining it.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all query sequences over all filter sizes, band edges and level settings",
 "Tests solve two fixed designs and look at feasibility of the end result; the rotating scan position makes each reply depend on the whole query history.",
 ["src/oracles/lowpass_oracle.rs"],
 [("rotating scan over three bands with cached maximum", "src/oracles/lowpass_oracle.rs LowpassOracle")],
 ["oracle replies compared with a direct evaluation of every specification"],
 [("scan cursors and cached maximum", "where the next scan starts; best stop-band response of the last scan", "src/oracles/lowpass_oracle.rs")])

prop("C15", "The profit and quasi-convex oracles answer correctly for any query history",
 "For every query history, the profit oracles (plain, robust, discrete) and the quasi-convex example oracle report an improvement exactly when the judged point satisfies every constraint at the current best value, setting the best value to the true objective at that point (worst-case parameters for the robust one; the rounded integer point, which is also the returned candidate, for the discrete one). "
 "Otherwise they return a cut whose gradient and offset are exactly those of a constraint violated at the judged point, expressed relative to the query point (the discrete oracle offers an alternative on every fresh query and none on a retry). "
 "Earlier queries, poisoned queries and interleaved sessions never change an answer, except that a retry re-judges the candidate of the previous non-retry query.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all query/best-value/retry sequences over all problem parameters",
 "Tests run one parameter set to a regression iteration count; cached intermediates reused across rotating constraints can be stale only after particular query orders.",
 ["src/oracles/profit_oracle.rs", "src/quasicvx.rs"],
 [("rotating constraint index with cached terms", "src/oracles/profit_oracle.rs ProfitOracle::assess_feas"), ("worst-case elasticities per query", "ProfitRbOracle"), ("remembered discrete candidate", "ProfitOracleQ"), ("rotating constraint index", "src/quasicvx.rs MyOracle")],
 ["oracle replies compared with direct evaluation of the constraints"])

prop("C16", "Matrix-inequality oracles certify rejections and accept only feasible points",
 "For every query history, each linear-matrix-inequality oracle accepts a point exactly when the matrix it defines is positive definite there (outside a rounding band), and otherwise returns a cut that holds for every point satisfying the inequality and excludes the query point, with offset equal to the certified violation. "
 "Earlier queries, including ones with failing factorisations of other sizes of minor or non-finite entries, never influence the answer, and all oracle variants agree.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all symmetric coefficient sets and query sequences, interleaved sessions and poisoned queries",
 "Tests query each oracle once or run one feasible problem; the shared factorisation workspace carries data from one query to the next.",
 ["src/oracles/lmi_oracle.rs", "src/oracles/lmi_old_oracle.rs", "src/oracles/lmi0_oracle.rs", "src/oracles/ldlt_mgr.rs"],
 [("lazy factorisation with early exit and witness", "src/oracles/ldlt_mgr.rs"), ("cut from witness quadratic forms", "src/oracles/lmi_oracle.rs and variants")],
 ["oracle replies compared with an independent factorisation and with sampled feasible points"])

prop("C17", "A reused factorisation workspace answers like a fresh one",
 "For every sequence of factorisations, witness extractions, quadratic forms and square roots on one workspace - including failed, semidefinite, poisoned and panicking ones - each answer equals the answer of a brand-new workspace given only the latest matrix. "
 "A matrix is declared positive definite exactly when it is (outside a rounding band; without one where the elimination is exact); otherwise the published witness vector v is a certificate for the whole matrix: its quadratic form is minus the returned non-negative value. "
 "The square root of an accepted matrix reproduces it, and misuse (a witness against an accepted matrix, a square root of a rejected one) is refused and changes nothing.",
 ["histories", "inputs", "fault_sequences"],
 "all operation sequences over all symmetric matrices of one size, with poisoned inputs and panicking element callbacks",
 "Tests use a new workspace per matrix, so leftovers of earlier factorisations and witnesses never matter.",
 ["src/oracles/ldlt_mgr.rs"],
 [("in-place factor storage, failing minor position and witness buffer", "src/oracles/ldlt_mgr.rs LDLTMgr")],
 ["return values, published witness and minor position, square root"],
 [("factor storage, witness, failing minor", "results of the latest factorisation", "src/oracles/ldlt_mgr.rs")])

prop("C18", "Bundled oracles and drivers together return a true incumbent",
 "For every bundled optimisation problem (filter design, profit in all variants, quasi-convex example, maximum cut, classifier), region, budget, cancellation and resumption, whenever a solver run returns a point, that point is feasible for the problem and its objective, recomputed from the problem data alone, equals the best value handed back, and the best value only ever improves (up to rounding) during minimise/maximise runs. In continuous runs no query of the run was feasible with a better objective. "
 "The classifier reports its worst margin, or zero once every sample is separated with unit margin, at its latest query.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "all problem data, regions, budgets and interruption points over all bundled oracles and both implementations",
 "Tests check one data set per oracle, mostly that some point is returned; agreement between value and point is not recomputed.",
 ["src/oracles", "src/quasicvx.rs", "src/cutting_plane.rs"],
 [("oracle sets the best value only at accepted points", "assess_optim / assess_optim_q of each oracle"), ("driver keeps the matching point", "src/cutting_plane.rs drivers")],
 ["returned point and best value against independent evaluation"])

prop("C19", "Arrays mean the same through every history of operations, copies and failures",
 "For every history of array operations over a population of vectors and matrices - constructors, element-wise operators in owned, borrowed and in-place form, products, rank-one updates of symmetric matrices, reductions, maps, rows, element access, writes and copies - every result has the textbook shape and values (up to rounding), and every array that the operation does not write - read-only operands, copies and originals of copies, arrays on other threads - keeps exactly its contents. "
 "Operations that cannot be carried out (operands of different sizes, a vector where a matrix is needed or the reverse, a rank-one update of a rectangular matrix, a list that does not fill the shape, a row or element out of range) are refused, and a refused operation, like one broken off by a panicking user function, leaves all arrays as they were; user functions are called once per element, in order. "
 "Two arrays compare equal exactly when shape and values are equal.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of array operations, copies, moves between threads, refused operations and panicking user functions, over all shapes and values (operands of equal size but different shape, non-finite operands of products and sums, and fractional spans of arange left open)",
 "Tests apply single operations to small fixed arrays; what a failed operation leaves behind, copies in later use, and unusual shapes and lengths are never looked at.",
 ["src/arr.rs"], [("array operations", "src/arr.rs")], ["shape and contents of every array of the population after every operation", "whether an operation was refused"])

prop("C20", "Power iteration and conjugate gradient survive cancellation and restarts",
 "For every symmetric matrix, starting vector, budget and tolerance, and for all four variants of power iteration: cancelling by the budget and resuming from the vector left behind continues the same trajectory as one uninterrupted run (up to rounding and sign); the value returned is the Rayleigh quotient of the vector left; the count is the budget when the tolerance was not met and otherwise the zero-based index of the first iterate that met it, at which the run stops; the vector left at convergence has unit length; and the scale of the starting vector does not matter. "
 "For every symmetric positive definite system, conjugate gradient started from any guess - none, an earlier answer, a checkpoint, the exact solution - returns a vector whose residual is within the tolerance whenever the budget suffices (the budget suffices when the textbook conjugate-gradient iteration from that guess meets the tolerance within it - at the latest after as many steps as the dimension, up to rounding), and an error otherwise; it never returns a vector whose residual exceeds the tolerance.",
 ["inputs", "fault_sequences", "histories"],
 "all symmetric matrices of documented domain, starting vectors and checkpoints, budgets, tolerances and sequences of cancellations and restarts",
 "Tests run fixed small matrices once from one start with ample budget; nothing is cancelled, resumed or restarted from an answer.",
 ["src/conjugate_gradient.rs", "src/power_iteration.rs"],
 [("power iteration variants", "power_iteration, power_iteration2, power_iteration3, power_iteration4 in src/power_iteration.rs"), ("conjugate gradient", "src/conjugate_gradient.rs")],
 ["vector left, value and count returned at every cancellation and restart", "residual of every returned solution"])

prop("C21", "The Python port computes the same cuts as the Rust crate",
 "For all dimensions and offsets, the bundled Python port's cut calculator and oracles return the statuses and coefficients the Rust crate returns.",
 ["inputs"], "all dimensions, offsets and half-widths",
 "Each side is tested against its own literals.", ["python_ai", "src/ell_calc.rs"], [("duplicate formulas", "python_ai/ellalgo/ell_calc.py")], ["returned coefficients"])

prop("C22", "Classifier and max-cut oracles answer by the data alone at every query",
 "Whatever was asked before, by whom, and whatever failed in between, the classifier oracle sets the best value to the worst margin over the samples and, unless every sample has unit margin, returns a cut through the query point whose direction is that of a sample with the worst margin, so that no parameter vector with an at least equal worst margin is ever cut away; once every margin is at least one it sets the best value to zero and returns a direction-less cut, at which the driver stops with that very point. On separable data with margin, that happens within the number of cuts the volume bound allows. "
 "The max-cut oracle reports an improvement exactly when the partition obtained by rounding the query (non-negative goes to one side) has a larger cut weight than the best value, then sets the best value to that weight, and otherwise leaves it alone; its direction is minus twice the weight each vertex contributes across the partition.",
 ["inputs", "histories", "fault_sequences"],
 "all data sets, graphs, query sequences, best values, interleavings of several oracles, poisoned queries and aborted searches",
 "Tests query one small data set or graph a few times and mostly check that some reply arrives.",
 ["src/oracles/svm_oracle.rs", "src/oracles/maxcut_oracle.rs", "src/cutting_plane.rs"],
 [("classifier reply", "src/oracles/svm_oracle.rs assess_optim"), ("max-cut reply", "src/oracles/maxcut_oracle.rs assess_optim")],
 ["every reply against direct evaluation and against a fresh oracle", "number of cuts until separation"])

prop("C23", "The Python port's drivers follow their protocol at every reply and failure",
 "In every search with the port's feasibility, optimisation or dispatching driver, each query is made at the region's current centre and the oracle's cut is applied, unchanged and exactly once, as an offset cut before the next query. "
 "The search ends at the first of: the oracle is satisfied (success, with the very point that was asked), the region answers a cut with anything but success (that verdict, with the point that was asked), the region's measure after an accepted cut is strictly below the tolerance (success, with the new centre), or the budget is used up (unknown, with the current centre and the budget as index); otherwise the index is the number of cuts accepted before the deciding query. Nothing is called after that. "
 "The optimisation driver hands infinity to the oracle as objective value and returns it; the dispatching driver treats an oracle that can answer feasibility questions as one, and returns no objective value then. "
 "Bisection checks the bracket width against the tolerance before every probe, probes the midpoint, keeps the lower half on yes and the upper half on no, and returns the midpoint of the final bracket. "
 "An exception raised by a callback reaches the caller unchanged with no further call; options are not modified, absent options mean 2000 steps and tolerance 1e-20 whatever was done to other option objects; and searches that run nested in one another's callbacks or interleaved on several threads do not influence each other.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "all reply and verdict sequences, measures, budgets, tolerances, exception points, nesting and interleavings of searches",
 "The port's driver tests do not even load (they import names the package does not export), and they would only run a few fixed problems.",
 ["python_ai/ellalgo/cutting_plane.py"],
 [("driver loops", "cutting_plane_feas, cutting_plane_optim, cutting_plane in python_ai/ellalgo/cutting_plane.py"), ("bisection", "binary_search in python_ai/ellalgo/cutting_plane.py")],
 ["every call a driver makes on oracle and region", "the returned tuple or exception"])

prop("C24", "The Python port's ellipsoid is decided by its observable state alone",
 "For every history of cuts on an ellipsoid of the Python port: a cut that is not accepted, and a malformed one (refused by an exception), leaves centre, matrix and scale bit-identical; an accepted one changes them exactly as the coefficients of a fresh calculator for that dimension, offset and squared half-width prescribe (up to rounding), keeps the matrix symmetric, lowers the scale for a one-sided cut, and in the immediate mode leaves scale one. "
 "The verdict follows from offset and half-width: no effect without a positive squared half-width; for one-sided offset and Q cuts no solution for an offset of zero or more, no effect at or beyond minus the half-width; for two-sided ones no solution unless both offsets have the same sign; central cuts are otherwise accepted. The measure reported is the squared half-width along the cut's direction before the cut. "
 "A region rebuilt from kappa, matrix and centre, or kept in the other scaling mode, reacts to the next cut in the same way. Arrays handed in or out (matrix, centre, gradient) are never shared or modified, a centre of the wrong shape is refused with ValueError, and using one region or calculator never changes another.",
 ["inputs", "histories", "fault_sequences"],
 "all constructors, dimensions, scaling modes, cut kinds and offsets, and interleavings of several regions with refused and malformed requests",
 "Tests apply a single cut to a fresh ball and mostly accept any verdict.",
 ["python_ai/ellalgo/ell.py", "python_ai/ellalgo/ell_calc.py"],
 [("update", "Ell._update_core in python_ai/ellalgo/ell.py"), ("verdicts and coefficients", "EllCalc in python_ai/ellalgo/ell_calc.py")],
 ["kappa, mq, xc, get_xc, get_tsq and the verdict after every step"])

prop("C25", "The Python port's oracles answer by their data alone at every query",
 "Whatever was asked before, and whatever the caller did with the arrays it passed in or got back, the matrix-inequality oracle accepts a point exactly when the matrix there has no negative eigenvalue and otherwise returns the smallest eigenvalue as offset and the quadratic forms of the coefficient matrices in a unit eigenvector for it as gradient, so that offset plus gradient times the step to any point satisfying the inequality is never negative. "
 "The profit oracle answers a query beyond the capacity with the capacity's own normal and the (negative) remaining capacity, never calling it optimal; elsewhere, at positive inputs, it returns the gradient of negative profit, and calls the point optimal exactly if that gradient is shorter than 1e-6; a point with a non-positive input is never called optimal. Its reply does not depend on the best value so far. Queries are not modified, and data that do not fit together are refused with ValueError at construction.",
 ["inputs", "histories", "fault_sequences"],
 "all problem data, query sequences (at, near and beyond boundaries, repeated, poisoned) and interleavings of several oracles",
 "Tests ask one or two queries of a fresh oracle.",
 ["python_ai/ellalgo/oracles/lmi_oracle.py", "python_ai/ellalgo/oracles/profit_oracle.py"],
 [("matrix inequality", "LmiOracle.assess_feas"), ("profit", "ProfitOracle.assess_optim")],
 ["every reply against direct evaluation and against a fresh oracle"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
