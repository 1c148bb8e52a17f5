# property -> (technique, level note)
CHECKS = {
 "T01": ("bounded-exhaustive operation-history exploration of the real book against a reference model",
         "Every history up to the stated depth over a small colliding alphabet of ids, sides, prices and sizes is executed on the real book and compared step by step with a flat-list model; nothing is claimed for longer histories or sizes outside the alphabet. Orders have a positive size."),
 "D01": ("exhaustive enumeration of all market-days against an independent holiday generator, plus bounded histories of added holidays",
         "Covers every one of the 299 years the Easter tables support, for all 29 markets. Rule-based holidays are checked against an independent generator; dates announced year by year (China, Hong Kong, India, Indonesia, New Zealand's Matariki, Singapore) against a frozen copy of the tables."),
 "D02": ("exhaustive enumeration of date pairs, date lists and holiday subsets against a prefix-sum model",
         "All pairs inside the stated windows, all date words up to the stated length, all holiday subsets of a window; horizons of up to 164 years and lists of up to 5000 dates at a few start dates; other ranges are not executed."),
 "D03": ("exhaustive enumeration of all market-days and of all closure patterns in month-end windows against a reference roll",
         "Every date of 1902-2198 in every market, every convention, and every subset of closures in windows around three month ends."),
 "D04": ("exhaustive enumeration of date pairs in windows against independently written published definitions",
         "Every pair in windows covering leap, non-leap and century years; Act/365L accepts either published reading; Act/Act ICMA is excluded."),
 "D05": ("exhaustive enumeration of dates, gaps and date words against own calendar arithmetic",
         "Every date of the stated years and every gap up to 800 days; schedules over all date words up to the stated length; date sequences of up to 160 years and evenly spaced schedules of up to 5000 dates."),
 "A01": ("bounded-exhaustive enumeration of straight-line programs on the real tape against exact forward-mode derivatives",
         "Every program of one and two operations over all 37 operations in every operand form, every three-operation program ending in its last result, and four-operation sharing patterns over a small alphabet, each at a grid of points; longer programs and other points are not executed, and in programs points within 1e-6 of a kink or pole are skipped; single operations are compared, relative to the size of value and partial, from 1e-100 to 1e30 and up to the edges of their domains."),
 "A02": ("bounded-exhaustive operation-history exploration of one and two graphs against a reference tape",
         "All histories up to the stated length over ten actions and all joins of two histories up to the stated length, plus graphs of up to 65 537 inputs, and operations with infinite partials recorded before, between and after; drawings are compared edge by edge (edges of partial zero ignored)."),
 "M01": ("bounded-exhaustive enumeration of knot sets, insertion histories and queries against an independent interpolant and de Boor's algorithm",
         "All subsets of a knot grid up to the stated size, all value words, all insertion orders and splits; B-splines of degree 0 to 3 over all knot multisets of a small alphabet; every date and time type as an index over spans from nanoseconds to millennia; the same data in units from 2^-60 to 2^60 (thorough 2^100)."),
 "M02": ("exhaustive enumeration of a parameter and argument grid against independent closed forms and convolution tables",
         "Parameters and arguments outside the grid are not executed; quantiles, distribution functions and survival down to probabilities of 1e-300 and arguments up to infinity, and between the integers for discrete distributions; samplers draw from the operating system's generator and are only checked for length and support. Two deviations pinned by the repository's tests are known findings."),
 "M03": ("exhaustive enumeration of functions, guesses, steps, accuracies and intervals on the real solvers with instrumented evaluations",
         "The product grid over nine monotone shapes, plus functions with several roots or none and roots from 1e-9 to 1e9, function values in units from 2^-200 to 2^200; other functions are not executed. Answering 0.0 for 'no root' is a known finding."),
 "M04": ("exhaustive enumeration of integrands, intervals and lengths against exact primitives and definitions",
         "All polynomials over the coefficient alphabet and nine further integrands on all intervals of a grid, in units of value and argument that are powers of two; sequences of thousands of elements; integrands with complex singularities near the interval are outside the fixed-point rule's accuracy."),
 "M05": ("exhaustive enumeration of sample words against pairwise textbook definitions",
         "Every word up to length 7 (12 over a smaller alphabet) in every order, and long samples, in units that are powers of two; the interquartile range is only bracketed because its convention is not documented."),
 "M06": ("exhaustive enumeration of objectives, starts, rates, caps and tolerances against an exact replay of the iteration",
         "Quadratics and quartics in one and two dimensions; runs that diverge beyond 1e12 are not judged."),
 "M07": ("bounded-exhaustive enumeration of input words and impulse pairs against the defining sum",
         "All words over the alphabets for lengths up to 8, impulses and pairs of impulses (which decide a linear map) for larger lengths."),
 "I01": ("bounded-exhaustive operation-history exploration of the real rate table, and enumeration of amount and currency pairs, against a reference map",
         "All histories of insertions and updates up to the stated depth over the stated number of currencies with every conversion queried after each; all operators over all pairs of an amount alphabet."),
 "I02": ("exhaustive enumeration of a parameter grid against independently written closed forms",
         "Five models on the whole product grid of spot, strike, maturity, rate, yield and volatility, and the dated pricers on whole-day maturities, and all histories of replacing option and model of a pricer up to the stated length; other parameters are not executed."),
 "I03": ("exhaustive enumeration of a parameter grid against exact derivatives of an independently written price",
         "Every Greek of every model on the product grid against truncated-Taylor (jet) arithmetic on the reference price, under the code base's sign conventions; the same contracts in units that are powers of two must scale."),
 "I04": ("exhaustive enumeration of a grid of attainable and unattainable prices against the pricing formula",
         "Calls and puts on the whole grid of moneyness, maturity, rate and volatility; far out-of-the-money prices down to 1e-290 as well; where double precision leaves no volatility information only repricing is required. The answer may not depend on the unit of the prices."),
 "I05": ("bounded-exhaustive enumeration of price paths against contract definitions",
         "Every path up to the stated length over a price alphabet that straddles strikes and barriers, for every contract variant; longer paths in a few structured shapes; paths that touch zero or go negative for the payoffs that are defined there."),
 "I06": ("exhaustive enumeration of contracts and grid sizes against closed forms and an independent lattice",
         "The product grid of contracts, schemes, exercise rights and grid sizes, every set of exercise dates on the time steps of small grids, with error bounds of the schemes' order; deviations smaller than those bounds are not seen."),
 "I07": ("exhaustive enumeration of contracts, processes, configurations and seeds against the payoffs of the simulated paths and an independent lattice",
         "The Monte-Carlo price is compared exactly with the discounted mean over the very paths it simulates; the regression price with a Bermudan lattice within six standard errors plus a bias allowance, for fixed seeds, and exactly where the underlying is deterministic; both must scale with the unit of the underlying."),
 "I08": ("exhaustive enumeration of parameter grids against independently written model values",
         "The product grids of the three models. The Heston quadrature (fixed 100 points, integral cut at 50) is a known finding where it is coarser than 1e-4; SABR calibration uses an unseeded particle swarm and is not checked."),
 "S01": ("exhaustive enumeration of schemes, coefficient functions, step counts, horizons, starts and seeds on the real simulator against the one-step update of the scheme",
         "Every path of the product grid is replayed step by step from the previous value and the increment the same configuration draws for a driftless process; two-factor processes are replayed with both coordinates, the hidden one read off its coefficient calls; the law of the increments is judged by moments over fixed seeds; rescaled processes must rescale their paths; all jumps that arrive within a step are added, with their number and sizes judged by moments over fixed seeds. Other grids are not executed."),
 "S02": ("exhaustive exploration of path-worker schedules of the real parallel simulation under a controlled scheduler, plus enumeration of pool sizes and configurations",
         "All interleavings of the path workers' coefficient calls for the stated numbers of paths and steps (paths that have not started are interchangeable), with the output compared bit for bit with the sequential run; pools of several sizes with up to 1030 (thorough 10001) paths; scheduling inside the thread pool between those calls is not controlled. Unseeded Merton jump sizes are a known finding."),
 "S03": ("exhaustive enumeration of processes, parameters, states and times against the documented equations",
         "The product grid of every process that has coefficients; Heston's are todo!() in the code."),
 "S04": ("exhaustive enumeration of parameter words, decay times and maturities against the formula and its integral",
         "The product grid, with decay times from hours to 1e9 years; the spot rate is compared with numerical integration of the forward formula."),
 "S05": ("exhaustive enumeration of Hurst parameters, lengths, horizons and seeds against the exact Cholesky factor and the fractional covariance",
         "The Cholesky generator is decided exactly on the grid; the covariance of the spectral generator is compared over all seeds of a fixed range within six standard errors, which is an auxiliary statistical comparison with fixed outcome."),
 "C01": ("bounded-exhaustive operation-history exploration of the real curve against a node map with independent interpolation",
         "All histories up to the stated length over a date and rate alphabet with linear and exponential interpolation, repeated dates and rates of either sign included, every accessor and query after each; the other two interpolation methods are todo!() in the code, and of fitting, which uses an unseeded particle swarm, only the objective is checked."),
 "C02": ("exhaustive enumeration of flow lists in every order against definitions",
         "All flow lists up to the stated length over a date and amount alphabet."),
 "C03": ("bounded-exhaustive operation-history exploration of the real quote against a reference value",
         "All assignment histories up to the stated length over values, zero and empty."),
 "C04": ("bounded-exhaustive enumeration of portfolios and update histories against sums over positions",
         "All portfolios of up to three positions over quantity and price alphabets and all update histories up to the stated length, negative prices included; weights are single precision."),
 "L01": ("exhaustive enumeration of integer design matrices, responses and penalties against exact optimality conditions",
         "All designs up to the stated size over an integer alphabet, in units that are powers of two. nalgebra's inaccurate SVD of some collinear designs is a known finding."),
 "L02": ("exhaustive enumeration of integer training sets, queries and options against definitions and score equations",
         "All training sets up to the stated size; logistic fits are judged where an exact test says that the maximum of the likelihood exists; features in other units give the same labels."),
 "L03": ("exhaustive enumeration of an argument grid against definitions",
         "Every function and implementation on a grid over the double range; other arguments are not executed."),
 "O01": ("exhaustive enumeration of all two-letter strings and every declared constant against frozen tables of the standards",
         "Complete for lookup and for every constant; the frozen tables were compared with those of JDK 17 where it has them."),
}
NA = {
 "X01": "A statistical statement about an unseeded random stream: there is no finite set of executions whose enumeration decides it, and judging it by samples would be a different technique.",
}
