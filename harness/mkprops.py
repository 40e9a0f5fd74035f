"""Writes /verif/properties.jsonl (kept as code so that the file stays in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
B = "pypfopt/base_optimizer.py"; EF = "pypfopt/efficient_frontier/efficient_frontier.py"
ES = "pypfopt/efficient_frontier/efficient_semivariance.py"; CV = "pypfopt/efficient_frontier/efficient_cvar.py"
CD = "pypfopt/efficient_frontier/efficient_cdar.py"; OF = "pypfopt/objective_functions.py"
CLA = "pypfopt/cla.py"; BL = "pypfopt/black_litterman.py"; HRP = "pypfopt/hierarchical_portfolio.py"
DA = "pypfopt/discrete_allocation.py"; ER = "pypfopt/expected_returns.py"; RM = "pypfopt/risk_models.py"; PL = "pypfopt/plotting.py"

prop("C01", "Returned weights satisfy the stated problem",
 "Whenever an optimizer of the efficient-frontier family (mean-variance, semivariance, CVaR, CDaR) returns weights, they are keyed by the tickers in input order and satisfy, within solver tolerance, every per-asset bound in whichever accepted form the bounds were given (one pair, pair with None, list of pairs, pair of arrays; unbounded sides included), the budget (sum one), every linear constraint and every sector limit added before solving, and the requested target (return at least, risk at most). A bound, constraint or sector limit applies to exactly the assets it names and is never dropped, duplicated onto another asset, or loosened.",
 ["inputs", "configurations", "histories"], "all universes, bound formats, sets of linear/sector constraints, methods, targets and orders of adding them",
 "Tests check a few bounds and sectors on one 20-stock dataset, mostly where the constraint is slack or by comparing hard-coded results.",
 [B, EF, ES, CV, CD], [("_map_bounds_to_constraints", B), ("add_constraint / add_sector_constraints", B), ("max_sharpe variable substitution rebuilds constraints", EF)],
 [("_constraints, _lower_bounds, _upper_bounds", "constraints of the problem", B)], ["weights returned by the solving methods"])
prop("C02", "Mean-variance methods return optimal portfolios",
 "Among all portfolios satisfying the stated bounds, constraints, budget and target, the portfolio returned by min_volatility has the least variance (plus added objective terms), by max_sharpe the highest Sharpe ratio for the given risk-free rate, by max_quadratic_utility the highest utility, by efficient_risk the highest return, by efficient_return the least variance (the last three including added objective terms), within solver tolerance.",
 ["inputs", "configurations"], "all positive semidefinite covariances, expected returns, bounds, linear constraints, added objective terms and targets",
 "Tests compare with recorded numbers for one dataset and check that neighbours on the frontier are ordered; they do not compare with the set of feasible portfolios.",
 [EF, B, OF], [("objective construction", EF), ("additional objectives summed", EF), ("max_sharpe substitution", EF)], observe=["weights returned"])
prop("C03", "Downside-risk methods return optimal portfolios",
 "Among all portfolios satisfying the stated problem, the semivariance, CVaR and CDaR optimizers return one with the least semivariance / CVaR / CDaR (min_* and efficient_return), the highest return (efficient_risk) or the highest semivariance utility, where these measures are computed from the given return history, benchmark, confidence level and frequency (plus added objective terms), within solver tolerance.",
 ["inputs", "configurations"], "all return histories, benchmarks, confidence levels, frequencies, bounds, constraints and targets",
 "Tests use recorded numbers on one dataset at one or two confidence levels.",
 [ES, CV, CD], [("auxiliary-variable formulations", ES + ", " + CV + ", " + CD)], observe=["weights returned"])
prop("C04", "Reported performance is the performance of the held weights",
 "portfolio_performance of every optimizer (and the module-level function, for weights given as dict, list or array) reports exactly the expected return, risk measure and ratio of the weights the object currently holds: mu'w, sqrt(w'Sw) and the Sharpe ratio at the applicable risk-free rate, semideviation and Sortino ratio, CVaR or CDaR of the return history, posterior figures for Black-Litterman. This is so whether the weights came from a first solve, a re-solve, set_weights or the original of a copy, and without weights it is refused with an error; the figures printed on request are the reported ones.",
 ["inputs", "histories"], "all universes, all sequences of solving, re-solving, copying, setting weights and asking for performance",
 "Tests ask for performance once, right after one solve at which the risk target binds.",
 [B, EF, ES, CV, CD, CLA, HRP, BL], [("portfolio_performance", B), ("solver variables reused for the figures", CV + ", " + CD)], [("weights", "weights held", B), ("_risk_free_rate", "rate used by max_sharpe", EF)])
prop("C05", "A solved optimizer stays frozen and answers re-solves afresh",
 "Once an optimizer has been solved, adding objectives or constraints, switching to a different objective or changing market neutrality is refused with an InstantiationError and leaves the weights and the reported performance as they were. Re-solving the same method with a new target or risk aversion is allowed and gives, up to solver tolerance, what a freshly built optimizer with the same inputs would give, whatever targets were solved (or failed) before; a new value for a named parameter of an added constraint counts from the next solve on.",
 ["histories"], "all sequences of solve, re-solve with feasible and infeasible targets, constraint/objective additions and method switches",
 "Tests try one forbidden step after one solve and two-step re-solves; they do not mix failures, several targets and forbidden calls.",
 [B, EF, ES, CV, CD], [("_solve_cvxpy_opt_problem objective/constraint identity checks", B), ("is_parameter_defined / update_parameter_value", B)], [("_opt, _initial_objective, _initial_constraint_ids", "the frozen problem", B), ("cp.Parameter values", "current target", EF)])
prop("C06", "Unacceptable requests are refused, acceptable ones answered",
 "A request with invalid arguments (non-positive risk aversion, negative or non-numeric target volatility, non-float target return, risk-free rate above all expected returns, target return above the attainable maximum, malformed bounds or inputs, inputs of the wrong type or of sizes that do not match, a confidence level outside [0, 1), non-callable constraint, unsupported method), on a problem that is no convex program where one is required, or without any admissible portfolio is refused with an error and leaves the weights the object held as they were. A request with valid arguments for which an admissible portfolio clearly exists is answered with weights.",
 ["inputs", "histories"], "all argument values around the validity limits, all targets on both sides of feasibility, at any point of an object's history",
 "Tests try single bad values per method on a fresh object.",
 [B, EF, ES, CV, CD], [("argument checks", EF), ("solver status check", B)], observe=["exception type", "weights afterwards"])
prop("C07", "Deep copies are isolated from their original",
 "A deep copy of an optimizer starts from the same problem and weights, and from then on constraints, objectives, targets, solves and performance requests on one of the two never change the weights, the constraints, the objectives, the reported performance or the answers of the other.",
 ["histories"], "all interleavings of operations on an original and its copies, copied before or after solving",
 "Tests copy once and compare one solve of each side.",
 [B, EF, CV, CD], [("deepcopy copies the mutable lists", B)], [("_additional_objectives, _constraints", "lists copied", B), ("_w, _opt, parameters", "shared cvxpy objects", B)])
prop("C08", "Market-neutral portfolios sum to zero within amended bounds",
 "With market_neutral=True every supporting method returns weights summing to zero that satisfy the user's constraints and bounds; only if no asset may be shorted are the bounds replaced by (-1, 1), with a RuntimeWarning, and user constraints survive that replacement. Without it weights sum to one.",
 ["inputs", "configurations", "histories"], "all bounds formats (shorting allowed or not), methods, constraint sets and call orders",
 "Tests use (0,1) and (-1,1) bounds without other constraints.",
 [EF, ES, CV, CD], [("_make_weight_sum_constraint removes the two bound constraints", EF)], [("_constraints[0..1]", "bound constraints by position", EF)])
prop("C09", "Objective functions compute their documented formula",
 "Each objective function (variance, return, Sharpe ratio, L2 regularisation, quadratic utility, transaction cost, ex-ante and ex-post tracking error) evaluates on numeric weights to its documented formula, with the sign convention and parameters given. The same function used inside convex_objective (and nonconvex_objective with a convex problem) leads to weights minimising that formula, with any added objectives, subject to bounds, constraints and the optional sum-to-one budget.",
 ["inputs", "configurations"], "all weights, parameters and uses of each function alone and in combination",
 "Tests evaluate each function at one or two hand-picked weights.",
 [OF, B], [("_objective_value", OF), ("convex_objective / nonconvex_objective", B)])
prop("C10", "Critical line algorithm gives the true efficient frontier",
 "For expected returns that differ, positive definite covariance and any admissible box bounds (scalar pair, arrays, list of pairs), CLA's min_volatility has the least variance, its max_sharpe the highest ratio of return to volatility, and each frontier point the least variance for its return, among all portfolios within the bounds that sum to one; the weights themselves satisfy bounds and budget, and the reported returns and volatilities are those of the listed weights.",
 ["inputs", "configurations"], "all universes with distinct means, bounds formats, and orders of calling the three methods",
 "Tests use one dataset with recorded results.",
 [CLA], [("turning points", CLA), ("golden section", CLA)], [("w, ls, g, f", "turning points", CLA)])
prop("C11", "Hierarchical risk parity follows the documented algorithm",
 "HRP weights are positive, sum to one, are returned for every asset, and equal the documented construction: cluster by correlation distance with the chosen linkage, order the leaves, then split recursively in halves with capital divided inversely to the inverse-variance cluster variances. Building from returns or from the same covariance gives the same weights.",
 ["inputs", "configurations"], "all return histories/covariances without ties, linkage methods, asset orders and names",
 "Tests compare with recorded numbers for one dataset.",
 [HRP, RM], [("_raw_hrp_allocation, _get_cluster_var, _get_quasi_diag", HRP)])
prop("C12", "Black-Litterman posterior follows the master formula",
 "Posterior returns equal pi + tau S P'(P tau S P' + Omega)^-1 (Q - P pi) and the posterior covariance equals S + tau S - tau S P'(P tau S P' + Omega)^-1 P tau S, for every cov/prior/views/Omega/tau; bl_weights are proportional to (delta S)^-1 times the posterior returns and sum to one. Results are labelled by the covariance's tickers and do not depend on which of these were asked for before.",
 ["inputs", "histories"], "all covariances, priors, picking matrices, uncertainties, tau, and orders of the calls",
 "Tests use recorded values and special cases.",
 [BL], [("bl_returns, bl_cov, bl_weights", BL)], [("_tau_sigma_P, _A, posterior_rets, posterior_cov", "caches", BL)])
prop("C13", "Black-Litterman inputs are interpreted as documented",
 "Absolute views become one picking row per named asset with its view; Q/P given as arrays or frames are used as given (identity P if every asset has a view); the default uncertainty is diag(tau P S P'); Idzorek's uncertainty for confidence c is tau (1-c)/c times the view variance (so c=1 means certainty); market and equal priors, market-implied prior returns and market-implied risk aversion equal their documented formulas. Invalid inputs (unknown ticker, tau outside (0,1], non-positive risk aversion, confidence outside [0,1], wrong dimensions, missing market caps) are refused.",
 ["inputs", "configurations"], "all view sets, formats, confidences and priors",
 "Tests use a handful of view sets.",
 [BL], [("_parse_views, _set_Q_P, _set_pi, _set_omega, default_omega, idzorek_method", BL), ("market_implied_prior_returns, market_implied_risk_aversion", BL)])
prop("C14", "Greedy allocation follows its algorithm and conserves cash",
 "For weights summing to at most one, the greedy allocation first buys the whole number of shares that each weight affords and then repeatedly buys one share of the affordable asset furthest below its target weight, as documented; share counts are integers of the sign of the weight, zero positions are omitted, the leftover is exactly the funds minus the cost of the shares and is never negative. Short positions are allocated separately with short_ratio (default: total short weight) times the value, and reinvest adds the short proceeds to the long side; a verbose call prints the allocation it returns.",
 ["inputs", "configurations", "histories"], "all weights, prices, portfolio values, short ratios, reinvest flags and repeated calls",
 "Tests use a few weight vectors with real prices and check recorded allocations.",
 [DA], [("greedy_portfolio", DA)], [("weights, allocation", "sorted in place", DA)])
prop("C15", "Integer-programming allocation is optimal and conserves cash",
 "lp_portfolio returns non-negative whole share counts per long (negative per short) asset whose total cost does not exceed the funds, with leftover equal to funds minus cost, minimising the sum of absolute differences between target and allocated value plus the leftover among all affordable whole-share portfolios. Each weight is matched with the price of the same ticker whatever the order of the prices or the calls made before; the long/short split and reinvest follow the same rules as the greedy method, as does the printed summary.",
 ["inputs", "configurations", "histories"], "all weights, prices (any order), values, short ratios, reinvest flags and repeated calls",
 "Tests check recorded allocations in which weights and prices are in the same order.",
 [DA], [("lp_portfolio", DA)], [("weights order vs latest_prices order", "positional pairing", DA)])
prop("C16", "Weight post-processing is exact and faithful",
 "clean_weights zeroes exactly the weights whose absolute value is below the cutoff and rounds the others to the given number of decimals (not at all for None), keyed by ticker in order, without altering the held weights; an invalid rounding is refused. set_weights stores the weight given for each ticker regardless of the order of the dict, and save_weights_to_file writes the cleaned weights so that reading the csv, json or txt file back gives the same ticker-weight mapping; unknown extensions are refused.",
 ["inputs", "histories"], "all weights, cutoffs, roundings, dict orders and file types",
 "Tests use one optimized portfolio and a few cutoffs.",
 [B], [("clean_weights, set_weights, save_weights_to_file", B)], [("weights", "held weights", B)])
prop("C17", "Return estimators equal their documented formulas",
 "returns_from_prices and prices_from_returns are simple or log conversions that undo each other; mean historical return is the annualised geometric (or arithmetic) mean over each asset's observations, the EMA estimate uses exponential weights for the span, and the CAPM estimate is the risk-free rate plus beta times the annualised market excess return, with the equal-weighted market when none is given. This holds for prices or returns input, any frequency and missing data (with a warning for gaps or infinities), and the return_model dispatcher passes every option through.",
 ["inputs", "configurations"], "all price histories (with gaps), option combinations and input kinds",
 "Tests use one dataset and mostly default options.",
 [ER], [("mean_historical_return, ema_historical_return, capm_return, return_model", ER)])
prop("C18", "Covariance estimators equal their documented formulas",
 "Sample covariance, semicovariance (drops below the benchmark), exponentially weighted covariance and the correlation conversions equal their documented formulas times the frequency (the minimum covariance determinant estimate is the covariance of a majority of the complete periods), symmetric and labelled by the assets, whenever the result is positive definite. This holds for prices or returns input, simple or log returns, any frequency, span and benchmark, and the risk_matrix dispatcher passes every option through.",
 ["inputs", "configurations"], "all histories and option combinations",
 "Tests use one dataset, mostly shapes and positivity.",
 [RM], [("sample_cov, semicovariance, exp_cov, cov_to_corr, corr_to_cov, risk_matrix", RM)])
prop("C19", "PSD repair returns a positive semidefinite matrix minimally changed",
 "fix_nonpositive_semidefinite returns positive semidefinite symmetric input as it is; otherwise the spectral method returns the matrix with its negative eigenvalues set to zero (the nearest positive semidefinite matrix) and the diag method adds 1.1 times the magnitude of the lowest eigenvalue to the diagonal, keeping labels and input type. Estimators applied to degenerate data return repaired matrices; an unknown method is refused.",
 ["inputs"], "all symmetric matrices, methods and input kinds",
 "Tests repair one or two fixed matrices.",
 [RM], [("_is_positive_semidefinite, fix_nonpositive_semidefinite", RM)])
prop("C20", "Shrinkage estimators equal their published formulas",
 "Every shrinkage estimate equals frequency times (delta F + (1-delta) S) for its documented target F (scaled identity, single factor, constant correlation), with the published optimal delta (Ledoit-Wolf 2001, 2003, 2004; oracle approximating in scikit-learn's form) or the given one, delta within [0,1] and exposed on the object, labelled by the assets, independent of which estimates were computed before on the same object.",
 ["inputs", "configurations", "histories"], "all return histories, targets, frequencies and call orders",
 "Tests check delta and positivity on one dataset.",
 [RM], [("CovarianceShrinkage", RM)], [("delta, S, X", "estimator state", RM)])
prop("C21", "Inputs are never modified and results are repeatable",
 "No public function or method changes the data objects passed to it (frames, series, arrays, dicts, lists: values, labels and order all stay), and repeating a pure call with the same data gives the same result.",
 ["inputs", "histories"], "all public entry points, input kinds and option combinations, called repeatedly on shared data",
 "Tests never compare the inputs before and after a call.",
 [ER, RM, EF, BL, HRP, DA, CLA], [("copies made before in-place edits", ER)])
prop("C22", "Plots show the optimizer's actual portfolios",
 "The efficient-frontier plot shows, for each requested parameter that can be solved, the (risk, return) of the corresponding efficient portfolio, each asset at its own risk and return, and the tangency portfolio at its performance, skipping unsolvable parameters; the covariance and weights plots show exactly the given values under their labels.",
 ["inputs", "configurations"], "all optimizers, parameter ranges (with unsolvable values) and options",
 "Tests only check that axes were produced.",
 [PL], [("_plot_ef, _ef_default_returns_range, plot_efficient_frontier, plot_weights, plot_covariance", PL)])
prop("C23", "Results depend on values, not on labels, order or container",
 "Giving the same data as pandas objects, arrays or lists, renaming the tickers, or permuting the assets consistently in all inputs gives the same portfolio, estimate or allocation up to solver tolerance, carried to the corresponding tickers. Where an algorithm breaks ties or arranges assets by position (hierarchical risk parity, integer allocation), only the permutation of the assets is excepted.",
 ["inputs", "configurations"], "all universes with a unique answer, permutations, namings and containers",
 "Tests use one order and naming.",
 [B, EF, HRP, BL, DA, ER, RM], [("ticker-value pairing", B)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            n = p["statement"].count(". ") + 1
            if n > 3: print(p["id"], n)
            f.write(json.dumps(p) + "\n")
    print(len(P))
