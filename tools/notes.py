EX = "bounded-exhaustive exploration of the implementation against a reference model"
N = {
 "C11": ("explicit-state enumeration of all weak orderings, executed on the implementation against exact rational ranks",
         "Exhaustive for vectors of up to 5 (6 thorough) observations and 2-3 columns: ranks depend on the weak order only, and every weak order is visited. A sizes model visits every length on both sides of powers of two, tens and hundreds up to 100001 in eight shapes (sorted, reversed, runs, ties, constant) and as many columns, against ranks found by counting."),
 "C01": ("exhaustive enumeration of a point lattice of the closed cube x family x dimension x parameter alphabet, implementation against exact decimal and quadrature references",
         "Exhaustive on the stated lattices (all lattice boxes, edges and corners included); says nothing between lattice points or beyond 4 dimensions. A parameter sweep visits parameters on both sides of every magnitude (distances 1e-12 to 1e3 from each end and special value of the domain) for every family and 2-4 dimensions."),
 "C02": ("exhaustive enumeration of lattice points and boxes x family x dimension x parameter alphabet against closed-form references",
         "Exhaustive on the stated lattices; box probabilities by quadrature. A parameter sweep judges the density at parameters on both sides of every magnitude."),
 "C03": ("exhaustive enumeration of every function with a log switch x parameter alphabet x row lattice",
         "Exhaustive on the stated lattices; values below the smallest normal double are outside the statement."),
 "C04": ("exhaustive enumeration of row batches, containers and operation histories executed on the implementation, compared with row-by-row evaluation in a forked fresh process",
         "All batches/histories up to the stated lengths over alphabets that contain each kind of row, container and call. A sizes model repeats rows into batches of every length on both sides of the powers of two, tens and hundreds up to 20001 (100001), and compares with single rows, for all families and functions and for 5-15 columns."),
 "C05": ("exhaustive enumeration of all permutations of up to 4 variables x row lattice x parameter alphabet",
         "All permutations up to dimension 4; rows and parameters from a lattice."),
 "C06": ("explicit-state exploration of all edit sequences up to a depth, each executed on the implementation in lock-step with a reference model",
         "All sequences up to the stated depth over an edit alphabet with valid, boundary and invalid edits, dimensions 2-4."),
 "C20": ("exhaustive enumeration of integer arguments x parameter lattice x methods, exact rational reference model",
         "Exhaustive up to the stated argument bounds; parameters from a rational lattice; says nothing about larger arguments."),
 "C07": ("explicit-state exploration of every sequence of parameter assignments over an alphabet of valid, boundary and invalid values, each executed in lock-step with a fresh reference object",
         "All sequences up to the stated depth; domains checked at both ends with one-ulp neighbours."),
 "C08": ("exhaustive enumeration of optimizer behaviours: a controlled stand-in for the numerical optimizer probes every sequence of points up to a bound and returns every outcome, observed on the real estimator",
         "All probe sequences and outcomes over the stated alphabets x every class and option dictionary; real optimizer runs are included as single histories."),
 "C09": ("explicit-state exploration of every operation history up to a depth, each replayed on the implementation and compared with a fresh object in a forked idle process",
         "All histories up to the stated depth over an alphabet of fits, failing calls, edits, evaluations and draws; data sets are fixed."),
 "C10": ("explicit-state exploration of every sequence of labelled, relabelled, unlabelled and failing fits up to a depth, probed with every permutation of the labels",
         "All sequences up to the stated depth over eight label sets, dimensions 2-3."),
 "C26": ("explicit-state exploration of operation histories (including failing optimizers) and parameter alphabets; every rendering is parsed back and compared with the state",
         "All histories up to the stated depth; renderings compared at printed precision."),
 "C21": ("exhaustive enumeration of a lattice around every branch boundary x container shapes x thread counts, independent series as reference",
         "Exhaustive on the lattice (each branch boundary with relative offsets down to 1e-15) and all container shapes; says nothing between lattice points."),
}
NA = {}
N.update({
 "C12": ("exhaustive enumeration of small data sets (ties, constants, every placement of missing values) x method x policy against exact rational coefficients",
         "Exhaustive over the stated value alphabets and row counts; larger data only through containers and labels. A sizes model visits those lengths up to 5001 (100001) with and without missing cells, and up to 65 columns, against exact counts."),
 "C13": ("exhaustive enumeration of all small rank configurations x smoothing x tie rule x offset x level lattice, and of every setting-change history up to a depth, against exact defining sums",
         "All weak orders of up to 3 (5) observations in 2-3 columns; levels from a lattice containing every jump and its lower neighbour. A sizes model visits those numbers of observations up to 5001 (100001), of queries up to 20001, and up to 12 dimensions."),
})
N.update({
 "C14": ("exhaustive enumeration of small samples and of every outcome of the random coin flips (libc rand replaced by a controlled stand-in) executed on the implementation, against the exact distribution of the p-value",
         "All weak-order configurations up to the stated sizes and every coin sequence; larger samples only by invariances. A sizes model visits those lengths up to 1025 (4097) and grid sizes up to 101: the statistic, the replicates with no and with every exchange, and multiplier replicates for given multipliers."),
})
N.update({
 "C15": ("exhaustive enumeration of small samples and of every outcome of the random coin flips (libc rand replaced by a controlled stand-in) executed on the implementation, against the exact distribution of the p-value",
         "All weak-order configurations up to the stated sizes in two and three dimensions and every coin sequence; larger samples not explored. A sizes model visits those lengths up to 1025 (4097), and up to 20 columns."),
})
N.update({
 "C16": ("exhaustive enumeration of bootstrap samples (every relative order) on all small tie patterns and of every assignment of replicates to forked worker processes, executed on the real driver through a controlled copula class, against the defining scheme",
         "All weak-order data sets of up to 4 rows; bootstrap samples are enumerated rank patterns; up to 4 replicates for the process assignments. A sizes model visits those sample lengths up to 2001 (4097) in 2, 3 and 7 columns with a structured bootstrap source."),
})
N.update({
 "C17": ("exhaustive enumeration of generator histories and seeds, and of an equidistributed grid of the underlying random numbers fed to the real samplers through controlled generators, against the closed-form cdf",
         "All histories up to the stated depth; the distribution is compared on boxes within the discretisation of the grid. A sizes model draws every number of rows on both sides of those lengths up to 20001 (100001), up to 12 dimensions: shape, range, repeatability, no repeated rows, and the same quadrant frequencies whatever the number. A parameter sweep draws each family from a grid of random numbers at parameters on both sides of every magnitude."),
})
N.update({
 "C18": ("exhaustive enumeration of family x parameter lattice x measure and of all argument tuples x container kinds executed on the implementation, against independent closed forms and rigorous grid brackets of the copula's own cdf",
         "Parameter lattices include both ends of the domain and the branch boundaries of the implementation; nothing is said between lattice points. A parameter sweep compares measures and round trips at parameters on both sides of every magnitude."),
 "C19": ("exhaustive enumeration of family x parameter lattice x level lattice (0, 1 and tails included) x container kinds executed on the implementation, against decimal references",
         "Exhaustive on the lattice; levels whose generator value does not fit into a double are excluded. A parameter sweep visits parameters on both sides of every magnitude."),
})
N.update({
 "C22": ("exhaustive enumeration of all symmetric matrices over value alphabets, all triangle shapes and all parameter vectors, executed on the implementation and decided by exact rational minors",
         "All matrices over the stated alphabets up to dimension 3 and correlation matrices of dimension 4. A scales model converts matrices of standard deviations from 1e-150 to 1e150 and in up to 90 dimensions."),
})
N.update({
 "C23": ("exhaustive enumeration of inner copulas x marginal tuples x specification forms (valid and invalid) and of fits over small data sets, executed on the implementation against the composition of the inner copula with the marginals",
         "All tuples over the stated marginal alphabet in two dimensions, all ordered selections in three; every continuous distribution of scipy.stats once."),
})
N.update({
 "C24": ("exhaustive enumeration of parameter sets, of every single defect at every position, of all vector lengths, and of all assignment/evaluation histories up to a depth, executed on the implementation against a reference state",
         "All histories of up to 3 operations (4 thorough) over 17 operation kinds; parameter sets over the stated alphabets up to 3 clusters in 3 dimensions."),
})
N.update({
 "C25": ("exhaustive enumeration of parameter and point lattices, of every iteration prefix of expectation maximisation (data sets x starts x criteria x limits), of every partition of small data sets for k-means, executed on the implementation against independent computations of the same iterates",
         "All iteration limits up to 6 (14 thorough) on the stated data sets and starts; gradient descent is followed through its report and, for Nelder-Mead, an independent run."),
})
N.update({
 "C27": ("exhaustive enumeration of parameter and point lattices of the multivariate t and stable densities executed on the implementation against the definition and the inverted characteristic function; draws under a controlled generator that enumerates an equidistributed grid of the underlying random numbers",
         "Parameter lattices are listed in the check; stable densities to 5e-4 relative and 2e-6 absolute, indices from 0.37; draws against the distribution functions to .004. A sizes model passes arrays of those lengths and multivariate distributions of up to 100 dimensions."),
 "C28": ("exhaustive enumeration of all small nested dictionaries in all pairs, triples and a sub-lattice of quadruples, and of all load-mutate-load-mutate-load histories of the bundled data sets, executed on the implementation against a path-wise reference merge and the csv module",
         "Two keys to depth 1, one key to depth 3; ten mutations; four data sets and the returns variant."),
})
N.update({
 "C29": ("exhaustive enumeration of all row tuples over a lattice, all small weak-order data sets x tie rules, all column orders and all pairs of parameter changes, executed on the implementation against textbook log densities",
         "All ordered pairs of lattice rows (every fifth in three dimensions), all weak orders of up to 4 rows in two and 3 rows in three columns. A sizes model visits those lengths."),
 "C30": ("exhaustive enumeration of small data sets (all pairs of weak orders, all tuples of permutations) x family x method executed on the implementation against closed-form inverses of exact rank correlations",
         "All weak orders of up to 4 rows in two columns, of 3 rows and permutations of 4 rows in three, four columns of 4 rows by stride in the quick tier and completely in the thorough one. A sizes model visits those sample lengths."),
})
N.update({
 "C31": ("stateless model checking of the implementation: every interleaving of two objects' operation histories, every copy history, and every schedule of two threads up to a preemption bound under a controlled scheduler at source-line granularity, against each side run alone in a forked process",
         "One operation per object and creation at any point (two for the second object in the thorough tier); one preemption at every executed source line of the package (two in the thorough tier)."),
})
N.update({
 "C32": ("exhaustive enumeration of small data sets by their ranks x value scales x row and column orders, every rank-based procedure executed on the implementation and its complete outcome compared",
         "Pairs of weak orders of 4 rows (half of them in the quick tier), permutations of 5 rows, three columns of 3 and 4 rows by stride; eleven scales of values; all row orders and column orders."),
})
N.update({
 "C33": ("exhaustive enumeration of small samples x family x optimizer x starting value executed on the implementation, each estimate compared with every neighbouring and grid parameter",
         "All permutation samples of 4 and 5 rows, of 6 and in three columns by stride (thorough: completely), one tie pattern; three optimizers; neighbours at four step widths and a one-dimensional grid."),
 "C34": ("exhaustive enumeration of small functions x brackets x expansion settings and of a grid of random numbers per parameter, executed on the implementation",
         "Ten shapes with one root at twelve (sixteen) places in both directions and all 729 functions with values -1, 0, 1 on six nodes, all brackets of the position grid, four expansion settings; functions without roots; log-series at every parameter magnitude on a 300 x 300 grid of uniforms."),
})
