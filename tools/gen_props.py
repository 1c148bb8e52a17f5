#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (one call per property)."""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = "crates/RustQuant_"

P("T01", "Limit order book executes in strict price-time priority with exact volumes",
  "For every history of adding limit orders, cancelling them and executing market orders, each market order trades against the best-priced resting orders of the opposite side first and, within a price, in order of arrival, never trading more than rests in the book and never trading a cancelled order. The reported fills list each traded price once with its exact volume, best price first, and the success flag is true exactly when the whole quantity traded. An identifier that is still resting is refused on add, an identifier that is not resting is refused on cancel, refused operations change nothing, and an order keeps the fields it was made with, through every constructor and setter.",
  ["histories"], "every sequence of add/cancel/market operations over colliding ids, prices, sides and sizes",
  "The unit tests replay a handful of fixed two- or three-order books; interactions of partial fills, cancellations and emptied price levels only appear in longer histories.",
  [C+"trading/src/limit_order_book.rs", C+"trading/src/limit_order_book/limit.rs", C+"trading/src/limit_order_book/order.rs", C+"trading/src/order_book.rs"],
  [("price-level trees plus id map", C+"trading/src/limit_order_book.rs Book"), ("FIFO queue per price level", C+"trading/src/limit_order_book/limit.rs Limit")],
  state=[("resting orders", "id -> side, price, remaining shares, arrival rank", "Book.order_map and Limit queues")])

P("D01", "Every market calendar classifies every day by its published holiday rules",
  "For every supported market and every date from 1901 to 2199, the calendar reports a holiday exactly on the public holidays given by that market's rules (fixed dates, Easter-relative days, nth-weekday rules, weekend substitutes, one-off closures, the Hebrew calendar in Israel) and announced closure dates, and a business day exactly when the date is neither a weekend day of that market nor a holiday. A holiday added by the user makes that day, and no other, a holiday as well.",
  ["inputs", "configurations"], "all 29 markets x every date of 1901-2199 (about 3.2 million market-days)",
  "Tests check a few dozen dates of a few markets in single years; substitution rules, leap years and Easter extremes are never reached.",
  [C+"time/src/countries", C+"time/src/calendar.rs", C+"time/src/constants.rs"],
  [("per-market holiday predicate", C+"time/src/countries/*.rs is_holiday_impl_*"), ("Easter table", C+"time/src/constants.rs EASTER")])

P("D02", "Calendar business-day queries are mutually consistent",
  "For every calendar, including ones with user-added holidays, and every pair of dates, the business-day count is the number of business days in the range including both ends (zero if the range is empty) and the calendar-day count is the signed difference in days. The list forms return exactly those counts for each pair of consecutive dates.",
  ["inputs", "configurations", "histories"], "every market x every range length and start in the enumerated windows x every small set of user-added holidays",
  "Tests count one or two ranges in one market.",
  [C+"time/src/calendar.rs"],
  [("range scans over the classification", C+"time/src/calendar.rs")])

P("D03", "Date rolling conventions pick the right business day",
  "For every market, date and rolling convention, rolling returns the date itself when it is a business day or rolling is off; otherwise following/preceding return the nearest later/earlier business day, the modified forms do the same unless that leaves the calendar month (then the nearest business day on the other side), and modified rolling moves to the next business day. Rolling is idempotent and rolling a list of dates equals rolling each of them.",
  ["inputs", "configurations"], "all markets x all conventions x every date in enumerated years",
  "Tests roll three or four dates under one calendar.",
  [C+"time/src/date_rolling.rs", C+"time/src/calendar.rs"], [("convention dispatch", C+"time/src/date_rolling.rs")])

P("D04", "Day-count fractions follow their convention on every pair of dates",
  "For every supported day-count convention and every ordered pair of dates, the day-count factor equals the value its published definition gives (actual days over a fixed basis, 30-day months with their end-of-month rules, and the leap-sensitive ones: NL, Act/365 Actual, Act/365L, Act/Act ISDA and AFB). The calendar front end returns that same factor for a pair and for each consecutive pair of a list. Act/Act ICMA, which needs a coupon period the interface does not take, is excluded.",
  ["inputs", "configurations"], "all conventions x all ordered date pairs in windows covering leap, non-leap and century years and every month-end combination",
  "Each convention has one or two sample pairs; end-of-February and leap-year branches are combinations of both dates.",
  [C+"time/src/day_counting.rs", C+"time/src/calendar.rs"], [("convention formulas", C+"time/src/day_counting.rs")])

P("D05", "Date utilities and schedules agree with the proleptic Gregorian calendar",
  "For every date, month and pair of dates, the helpers (first/last weekday of a month, month-end and end-of-February tests, leap-year and day counts, date sequences, day of year, Western and Orthodox Easter Monday, frequency inference) return what the Gregorian calendar and the documented definitions give. A schedule built from dates holds each date rolled by the calendar, in order, the day-count factor from today to the first date, then the factors between consecutive rolled dates.",
  ["inputs", "configurations"], "every date of 1583-2600 (thorough: years 1-9998) for each helper; all gaps of 0-800 days for frequencies; all date words x roll and day-count conventions x markets for schedules",
  "Tests sample single dates; month-end clamping and year carries depend on every (day, month, leap) combination.",
  [C+"time/src/utilities.rs", C+"time/src/schedule.rs", C+"time/src/frequency.rs"], [("calendar arithmetic", C+"time/src/utilities.rs"), ("schedule stepping", C+"time/src/schedule.rs")])

P("A01", "Automatic gradients equal exact derivatives for every expression",
  "For every expression built from the supported arithmetic and elementary operations on variables and plain numbers, in either operand order, and at every point where it is differentiable, the accumulated gradient with respect to each input equals the exact partial derivative, including when an input or intermediate result is used several times. The expression's value equals the same expression evaluated on plain numbers.",
  ["programs", "inputs"], "every expression tree up to the bounded size over all operations, operand kinds and sharing patterns, at a grid of points",
  "Tests differentiate each function once at one point; they never combine operations, share sub-expressions or mix operand orders systematically.",
  [C+"autodiff/src/overload.rs", C+"autodiff/src/variable.rs", C+"autodiff/src/gradient.rs", C+"autodiff/src/vertex.rs", C+"autodiff/src/accumulate.rs"],
  [("recorded partials per vertex", C+"autodiff/src/overload.rs"), ("reverse sweep", C+"autodiff/src/accumulate.rs")])

P("A02", "An autodiff graph can be shared, extended, cleared and merged without corruption",
  "For every history of creating variables, applying operations, taking gradients, zeroing or clearing the graph and joining two graphs, gradients of any live output equal the exact derivatives through the recorded operations, unaffected by unrelated variables and operations recorded before or after, and are zero for variables the output does not depend on. Taking a gradient never changes the graph, every way of reading it agrees, joining leaves both inputs unchanged, and the drawing of a graph shows exactly its vertices, the values of its inputs and its dependences.",
  ["histories"], "every operation history up to the bounded length on one or two graphs",
  "Tests build one graph once and differentiate it once.",
  [C+"autodiff/src/graph.rs", C+"autodiff/src/gradient.rs", C+"autodiff/src/accumulate.rs", C+"autodiff/src/graphviz.rs"], [("append-only vertex tape", C+"autodiff/src/graph.rs")])

P("M01", "Interpolators reproduce their data and stay on the interpolant",
  "For every set of distinct knots, given in any order and at construction or added later in any order, the linear, exponential and B-spline interpolators return exactly what their definition gives at every point of their range: the knot values at the knots and the linear (respectively log-linear) blend of the two neighbouring knots in between, for float, decimal, date and time indices, and the de Boor sum for B-splines up to both ends of their domain. Points outside the range are refused, the reported range is the evaluable one, adding a point equals constructing with it, and index and value lists of inconsistent lengths are refused.",
  ["inputs", "histories"], "all small knot sets over a value grid, all insertion orders and construction/addition splits, all query points on a refined grid including just outside both ends; all B-spline knot multisets over a small alphabet",
  "Tests query one or two points of one curve.",
  [C+"math/src/interpolation"], [("bracketing search and formula", C+"math/src/interpolation/*.rs")])

P("M02", "Probability distributions are internally consistent and match their definitions",
  "For every admissible parameter choice and argument, each distribution's mass (at integers) or density equals its defining formula and is zero outside the support, its distribution function is non-decreasing from 0 to 1 and equals the accumulated mass or density, and its quantile inverts it, the end points included. The reported mean, median, mode, variance, skewness, excess kurtosis, entropy, moment generating and characteristic function are those of that same distribution, inadmissible parameters are refused, and samples have the requested length and lie in the support. Documented approximations (chi-squared median, binomial entropy) stay within their error and unimplemented functionals refuse.",
  ["inputs", "configurations"], "all nine distributions x a parameter grid x an argument and quantile grid including support edges and tails",
  "Tests check single arguments per distribution.",
  [C+"math/src/distributions"], [("closed forms", C+"math/src/distributions/*.rs")])

P("M03", "Root finders return a genuine root whenever they report success",
  "For every continuous function whose sign change the bracket expansion from the guess can reach, bisection, Brent and Newton-Raphson return a point within the requested accuracy of a root (or one at which the function vanishes), whatever the function's slope, sign and scale, the guess, the initial step and the accuracy, also when the same solver is asked twice. With an enforced interval the function is never evaluated, and no answer given, outside it; a non-positive accuracy is refused, and a function without a root is not given one.",
  ["inputs", "configurations", "programs"], "nine monotone function shapes x roots x signs x scales x guesses x steps x accuracies x enforced intervals x three algorithms, functions with several roots and with none",
  "Tests solve one or two equations.",
  [C+"math/src/rootfinding"], [("iteration and bracketing", C+"math/src/rootfinding/*.rs")])

P("M04", "Numerical integration and sequences are accurate on every enumerated integrand",
  "For every smooth integrand (end-point singularities of algebraic or logarithmic type included) and every finite interval, the quadrature result equals the exact integral within its accuracy, reverses sign with the limits, is zero on an empty interval and is additive over adjacent intervals. linspace, cumsum, seq and rep have the requested length, end points, spacing and partial sums for every length of at least two points, and refuse empty grids.",
  ["inputs", "programs"], "all polynomials over a coefficient alphabet, exponentials, trigonometric and singular integrands over an interval grid; all lengths up to a bound for sequences",
  "Tests integrate three functions on one interval.",
  [C+"math/src/integration.rs", C+"math/src/sequences.rs"], [("tanh-sinh quadrature", C+"math/src/integration.rs")])

P("M05", "Sample statistics equal their textbook definitions on every small sample",
  "For every non-empty sample, in whatever order its observations come, the arithmetic, geometric and harmonic means, extremes and range, median, quantiles and percentiles, sample and population variance and standard deviation, bias-corrected skewness and excess kurtosis, covariance and correlation equal their definitions, and the interquartile range lies between the order statistics next to the quarter positions. Empty samples, probabilities outside [0, 1], samples too small for the statistic, and paired samples of different lengths are refused.",
  ["inputs"], "every sample word up to the bounded size over a value alphabet with ties, negative values and an outlier; all pairs of words",
  "Tests compute each statistic for one sample.",
  [C+"math/src/statistic.rs"], [("definitions", C+"math/src/statistic.rs")])

P("M06", "Gradient descent performs exactly the steepest-descent iteration",
  "For every smooth objective, start point, step size, tolerance and iteration cap, the reported minimizer is the point the exact steepest-descent iteration reaches, the iteration count is the one of that run and never exceeds the cap, it stops before the cap only where the gradient norm is below the tolerance, and the reported minimum is the objective at the reported minimizer. Non-positive tolerances are refused.",
  ["inputs", "configurations"], "all enumerated one- and two-dimensional quadratics and quartics x starts x step sizes x caps x tolerances",
  "Tests run a few functions from one start.",
  [C+"math/src/optimization/gradient_descent.rs"], [("descent loop", C+"math/src/optimization/gradient_descent.rs")])

P("M07", "The fast Fourier transform equals the discrete Fourier transform",
  "For every complex input whose length is a power of two, the fast transform returns the discrete Fourier transform of the input, the in-place variant leaves the same result, and the real variants return the moduli of the coefficients of the same transform. Every other length is refused, and the length test accepts exactly the powers of two.",
  ["inputs"], "all words over a small complex alphabet for lengths up to 8, every impulse and impulse pair for larger lengths, every length up to a bound",
  "Tests transform four fixed vectors.",
  [C+"math/src/fft.rs"], [("butterfly recursion", C+"math/src/fft.rs")])

P("I01", "Money and exchange conversions are exact and never mix currencies",
  "For every sequence of rate insertions and updates, converting an amount uses exactly the latest rate recorded for that ordered currency pair, converting to the same currency is the identity if defined, and an unknown pair is refused. Arithmetic and comparison of amounts in one currency equal that of plain numbers, and arithmetic across currencies is always refused.",
  ["histories", "inputs"], "all insertion/conversion histories over three currencies up to a bounded length; all amount pairs for each operator",
  "Tests add one rate and convert one amount.",
  [C+"instruments/src/fx"], [("pair-keyed rate table", C+"instruments/src/fx/exchange.rs")])

P("I02", "Generalised Black-Scholes prices are arbitrage-free closed forms",
  "For every spot, strike, rate, carry, volatility and maturity, each model in the Black-Scholes family returns the closed-form European price of that model, satisfies put-call parity and no-arbitrage bounds, is monotone in spot, strike and volatility, the special cases of the family agree with the general model, and a pricer prices the option and model last given to it.",
  ["inputs", "configurations"], "all models x full parameter grid",
  "Tests compare a few points with published values.",
  [C+"instruments/src/options/option_models.rs", C+"instruments/src/options/black_scholes_merton.rs"], [("closed form", C+"instruments/src/options/option_models.rs")])

P("I03", "Every analytic Greek is the derivative of the model's own price",
  "For every model in the Black-Scholes family and every parameter choice, each first-, second- and third-order Greek equals the corresponding partial derivative of that model's price under its documented sign convention.",
  ["inputs", "configurations"], "all models x all Greeks x calls and puts x full parameter grid",
  "Tests check Greeks at one parameter point, often against the code's own past output.",
  [C+"instruments/src/options/option_models.rs", C+"instruments/src/options/black_scholes_merton.rs"], [("closed forms", C+"instruments/src/options/option_models.rs")])

P("I04", "Implied volatility inverts the pricing formula",
  "For every attainable price, the implied volatility reprices the option to that price; prices at or beyond the no-arbitrage bounds are signalled as unattainable.",
  ["inputs"], "full grid of moneyness, maturity, rate and volatility for calls and puts, plus prices outside the bounds",
  "Tests invert a few prices near the money.",
  [C+"instruments/src/options/implied_volatility.rs", C+"instruments/src/options/black_scholes_merton.rs"], [("rational initial guess plus Householder steps", C+"instruments/src/options/implied_volatility.rs")])

P("I05", "Option payoffs equal their contract definition on every price path",
  "For every price path and contract variant, the payoff of each option equals its contractual definition: never negative for long options with limited liability, knock-in plus knock-out equals vanilla, call minus put equals the forward payoff, and path statistics (average, extremum, barrier touch) are those of the whole path.",
  ["inputs", "configurations"], "every path up to the bounded length over a price alphabet that straddles strike and barrier x every contract variant",
  "Tests price one or two contracts by simulation and compare loosely.",
  [C+"instruments/src/options"], [("payoff functions", C+"instruments/src/options/*.rs Payoff impls")])

P("I06", "Finite-difference prices converge to the model and respect exercise rights",
  "For every enumerated contract, each finite-difference scheme (within its stability region) approximates the European price, and early exercise is allowed exactly during the exercise window or on the exercise dates: an American or Bermudan price agrees with an independent lattice, and is at least that of its European counterpart and, where exercise is allowed at once, the immediate exercise value.",
  ["inputs", "configurations"], "schemes x calls/puts x exercise styles x parameter and grid-size grid",
  "Tests price an out-of-the-money American option, where early exercise is worthless.",
  [C+"instruments/src/options/finite_difference_pricer.rs"], [("grid schemes", C+"instruments/src/options/finite_difference_pricer.rs")])

P("I07", "Simulation-based pricers return the discounted mean of the simulated payoffs",
  "For every contract, process, path count and seed, the Monte-Carlo price equals the discount factor times the average of the contract's payoff over the simulated paths, in serial and parallel execution alike. The regression-based American price is reproducible for a seed, depends on the seed, and agrees within sampling error with the value of an option exercisable on the simulated dates, which for a single date is the European price.",
  ["inputs", "configurations", "schedules"], "contracts x seeds x path/step counts x serial/parallel",
  "Tests compare one price with a wide tolerance.",
  [C+"instruments/src/options/payoff.rs", C+"instruments/src/options/longstaff_schwartz.rs"], [("pricer", C+"instruments/src/options")])

P("I08", "Bachelier, Heston and SABR results are those of their models",
  "For every parameter choice, the Bachelier price, Greeks and implied volatility are those of normally distributed forwards and invert each other, the Heston price and Greeks are those of the characteristic function of that model with put-call parity (also through the dated pricer), and the SABR volatility is Hagan's expansion including its limit at the money.",
  ["inputs", "configurations"], "full parameter grids of the three models x strikes x maturities x calls and puts",
  "Tests compare one or two points per model, several of which fail.",
  [C+"instruments/src/options/option_models.rs"], [("closed forms and quadrature", C+"instruments/src/options/option_models.rs")])

P("S01", "Path simulation follows the selected discretisation scheme exactly",
  "For every process, scheme, step count, horizon and initial value, each simulated path starts at the initial value on the evenly spaced time grid from start to end, and each next value is the scheme's one-step update from the previous value with that path's own Gaussian increment scaled by the square root of the step. Processes with jumps add their jump at the times of a Poisson process of the given intensity.",
  ["inputs", "configurations", "programs"], "all schemes x enumerated drift/diffusion answer functions x step counts x horizons x seeds",
  "Tests only check that a path mean is near its expectation for one seed set.",
  [C+"stochastics/src/simulation.rs", C+"stochastics/src/process.rs"], [("one-step update", C+"stochastics/src/simulation.rs")])

P("S02", "Simulation output is a function of its configuration and seed under any schedule",
  "For a fixed seed and configuration, simulation output is bit-for-bit reproducible, distinct paths use distinct noise, and running in parallel gives exactly the sequential result whatever the number of worker threads and however their steps interleave.",
  ["schedules", "configurations"], "all interleavings of the path workers' steps up to the bounded number of paths and steps; all pool sizes",
  "Tests run one schedule chosen by the operating system.",
  [C+"stochastics/src/simulation.rs", C+"stochastics/src/fractional_process.rs"], [("per-path seeding", C+"stochastics/src/simulation.rs")])

P("S03", "Every process exposes the coefficients of its documented equation",
  "For every supported stochastic process, parameter choice, state and time, the drift, diffusion and jump coefficients equal those of the documented stochastic differential equation, including time-dependent parameters.",
  ["inputs", "configurations"], "all processes x parameter grid x state grid x time grid",
  "Tests never evaluate the coefficients directly.",
  [C+"stochastics/src"], [("coefficient functions", C+"stochastics/src/*.rs")])

P("S04", "The Nelson-Siegel-Svensson curve is that of its formula",
  "For every parameter choice and every date after today, the forward rate is the documented formula, the spot rate is the average of the forward rate over the time to that date and the discount factor is the exponential of minus rate times time; dates that are not in the future are refused.",
  ["inputs", "configurations"], "all parameter words over an alphabet x decay times x maturities",
  "Tests evaluate the curve at a few dates and check no value.",
  [C+"stochastics/src/curve_model.rs", C+"stochastics/src/nelson_siegel_svensson.rs"], [("curve formula", C+"stochastics/src/nelson_siegel_svensson.rs")])

P("S05", "Fractional noise has the covariance of fractional Gaussian noise",
  "For every Hurst parameter, number of steps, horizon and seed, the Cholesky generator is the exact Cholesky factor of the fractional covariance applied to the seed's white noise, the spectral generator scales with the step to the power of the Hurst parameter and has that covariance over the seeds, and parameters outside (0, 1) are refused.",
  ["inputs", "configurations"], "all Hurst parameters x lengths x horizons x seeds of a grid",
  "Tests plot or print the noise without checking its law.",
  [C+"stochastics/src/fractional_brownian_motion.rs"], [("noise generators", C+"stochastics/src/fractional_brownian_motion.rs")])

P("C01", "A curve answers every query from its current nodes",
  "For every history of building, updating, inserting into and shifting a curve, a query at a node returns that node's current value, a query between nodes returns the interpolation of the current nodes, an inserting query leaves the curve's other answers unchanged, first/last/bracket accessors describe the current nodes, and the objective of a fit is the mean log-cosh of model minus node.",
  ["histories"], "all operation histories up to the bounded length over a date and rate alphabet",
  "Tests build one curve and read it once.",
  [C+"data/src/curves.rs"], [("node map plus interpolator", C+"data/src/curves.rs")])

P("C02", "Cashflow and leg arithmetic preserves present value",
  "For every set of cashflows and every discount function, present values are amount times discount, adding, subtracting and scaling cashflows acts on amounts of equal date only, and a leg's value is the sum of its flows' values with its start, end and activity window determined by the earliest and latest flow.",
  ["inputs", "histories"], "all small flow lists over a date/amount alphabet and all orderings",
  "Tests check one leg of three ordered flows.",
  [C+"cashflows/src/cashflow.rs", C+"cashflows/src/legs.rs"], [("sums over flows", C+"cashflows/src/legs.rs")])

P("C03", "A quote reports exactly the last value assigned to it",
  "For every history of assignments and clears, a quote's value, validity flag and the change reported by each assignment reflect exactly the last assignment.",
  ["histories"], "all assignment histories up to the bounded length over values, zero and empty",
  "Tests assign once.",
  [C+"cashflows/src/quotes.rs"], [("optional value", C+"cashflows/src/quotes.rs")])

P("C04", "Portfolio valuation is the exact sum of its positions",
  "For every portfolio and history of updates, value, cost and profit equal the sums over current positions of quantity times price, quantity times cost and their difference, and value weights sum to one.",
  ["histories", "inputs"], "all portfolios of up to three positions over quantity/price alphabets and all update histories",
  "Tests value one fixed portfolio.",
  [C+"portfolios/src/lib.rs"], [("sums over positions", C+"portfolios/src/lib.rs")])

P("L01", "Regression fits satisfy their optimality conditions",
  "For every enumerated design matrix and response, least-squares coefficients satisfy the normal equations whichever decomposition is used, ridge and lasso coefficients satisfy the optimality conditions of their penalised objectives, and predictions are the fitted affine function of the features.",
  ["inputs", "configurations"], "all small integer design matrices and responses x options",
  "Tests fit one or two data sets against stored coefficients.",
  [C+"ml/src/linear_regression.rs", C+"ml/src/ridge_regression.rs", C+"ml/src/lasso.rs"], [("solvers", C+"ml/src")])

P("L02", "Classifiers return the label their definition selects",
  "For every training set and query, nearest-neighbour prediction returns a label with the maximal number of votes among the k closest points under the chosen metric, and logistic regression rejects non-binary responses and returns probabilities and labels consistent with coefficients that solve its score equations.",
  ["inputs", "configurations"], "all small integer training sets x queries x k x metrics",
  "Tests classify a handful of points of one data set.",
  [C+"ml/src/k_nearest_neighbors.rs", C+"ml/src/logistic_regression.rs", C+"ml/src/activations.rs"], [("vote count", C+"ml/src/k_nearest_neighbors.rs")])

P("L03", "Activation functions are their definitions",
  "For every argument, each activation function of numbers, of vectors and of recorded variables is its documented definition without avoidable overflow or loss of small values, and the recorded gradient is its derivative.",
  ["inputs"], "all activation functions x an argument grid spanning the double range x all three implementations",
  "Tests evaluate each function on one vector.",
  [C+"ml/src/activations.rs"], [("three implementations of each function", C+"ml/src/activations.rs")])

P("O01", "Country, currency and market codes are those of the standards",
  "For every two-letter string, country lookup succeeds exactly for assigned codes and returns the country with that code; every country's two-letter, three-letter and numeric codes, every currency's code, number and minor unit and every market identifier are those of ISO 3166, 4217 and 10383, well-formed and unique.",
  ["inputs"], "all 676 two-letter strings and every declared constant",
  "Tests look up a few countries.",
  [C+"iso/src/iso_3166.rs", C+"instruments/src/fx/currency.rs"], [("lookup table", C+"iso/src/iso_3166.rs")])

P("X01", "Random draws from each distribution follow that distribution",
  "Samples drawn from each distribution follow the distribution function of that distribution for every parameter choice.",
  ["inputs"], "all distributions x parameters, over the law of an unseeded random stream",
  "Existing tests compare a sample mean with a wide tolerance and are flaky.",
  [C+"math/src/distributions"], [("sampling via external generators", C+"math/src/distributions/*.rs sample")])

if __name__ == "__main__":
    ids = [o["id"] for o in OUT]
    assert len(ids) == len(set(ids))
    for o in OUT:
        assert len(o["title"]) <= 80, o["title"]
        assert o["statement"].count(". ") <= 2, o["id"]
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(p, "w") as f:
        for o in OUT: f.write(json.dumps(o) + "\n")
    print(len(OUT), "properties")
