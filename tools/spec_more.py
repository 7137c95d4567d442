"""Further properties (exec'd by spec.py)."""

prop("C15", "The linear algebra helpers compute what they document",
     "Every function of bayespy.utils.linalg (Cholesky solves, inverses, log-determinants, "
     "block-banded solver, matrix, inner and outer products over several axes, transposes, "
     "triangular solves) equals the "
     "textbook dense result for every input, over every combination of leading axes and "
     "broadcasted singleton axes it accepts.",
     ["inputs"],
     "well-conditioned matrices of sizes 1 to 5, up to 3 leading axes, singleton axes anywhere",
     "Tests use single shapes; all nodes depend on these helpers with broadcasted arguments.",
     ["bayespy/utils/linalg.py"],
     "Vectorised linear algebra over leading axes.",
     "property-based testing: differential against dense numpy per element",
     "Sampled shapes and values; zero-size matrices are outside the domain; the sparse Cholesky "
     "functions cannot run here (no cholmod). Trusts numpy.linalg.")

prop("C16", "The array utilities compute what they document",
     "Every array helper of bayespy.utils.misc (broadcasting, shape and axis bookkeeping, "
     "sum-products, masked and axis-wise sums, add/put at indices, normalised log-sum-exp, "
     "multidimensional special functions, gradient-safe functions) returns the documented "
     "result for all shapes, axes and values it accepts and does not modify its inputs.",
     ["inputs"],
     "shapes of up to 4 axes with sizes 0 to 4 and singleton axes, axes positive or negative",
     "Tests use a few shapes; plate arithmetic relies on these helpers for all of them.",
     ["bayespy/utils/misc.py"],
     "Shape arithmetic and reductions over plates.",
     "property-based testing: differential against naive loop implementations",
     "Sampled shapes and values. Trusts numpy and scipy.special.")

prop("C05", "Reported log densities are the densities of the distributions",
     "A node's logpdf and pdf at any value (with any extra leading axes) equal the normalised "
     "density of its current distribution, Gaussian-gamma marginal densities, means and "
     "variances equal the exact marginals, and a mixture's density integrated over the cluster "
     "assignments equals the weighted sum of the cluster densities.",
     ["inputs", "configurations"],
     "all distributions with a density, prior or arbitrary natural parameters, broadcasted "
     "plates, values with extra leading axes, zero probabilities, any cluster plate",
     "Tests never evaluate most densities; normalisation and broadcasting must hold for every "
     "parameter, dimensionality and plate layout.",
     [N + "expfamily.py", N + "gaussian.py", N + "mixture.py", N + "gamma.py", N + "wishart.py",
      N + "dirichlet.py", N + "beta.py", N + "categorical.py", N + "multinomial.py",
      N + "binomial.py", N + "poisson.py", N + "gaussian_markov_chain.py",
      "bayespy/utils/random.py"],
     "Log density from natural parameters, sufficient statistics and normalisers.",
     "property-based testing: differential against dense formulas, scipy.stats and enumeration",
     "Sampled parameters and values. Trusts scipy.stats and the dense formulas.")

prop("C18", "Saved state restores exactly and interrupted inference resumes exactly",
     "Loading a saved engine or node into a newly built model restores every moment, parameter, "
     "observation, mask, bound and iteration statistic, and inference interrupted after any "
     "iteration and resumed from the last saved or autosaved file continues exactly as if it "
     "had not been interrupted; loading some variables changes only those.",
     ["crash_points", "histories", "configurations"],
     "all models, masks, states, save points, interruption points, subsets of variables",
     "Tests save one small model once; every node type, mask and iteration count must survive "
     "at every interruption point.",
     ["bayespy/inference/vmp/vmp.py", N + "stochastic.py", N + "expfamily.py",
      "bayespy/utils/misc.py"],
     "HDF5 serialisation of node states and of iteration statistics.",
     "property-based testing: histories with interruptions against uninterrupted runs",
     NOTE + " A process killed in the middle of writing the file is outside the domain.")

prop("C19", "The engine's record of an inference run is correct",
     "For any sequence of engine operations, the engine updates exactly the requested variables "
     "in the requested order, counts iterations, records the lower bound and its terms after "
     "each of them, calls the callback once per iteration, warns when the bound decreases and "
     "stops at the first iteration whose relative improvement is below the tolerance.",
     ["histories", "configurations"],
     "all operation sequences, tolerances, callbacks, node selections, numbers of iterations",
     "Tests run the engine a few iterations and rarely look at its statistics.",
     ["bayespy/inference/vmp/vmp.py", N + "expfamily.py"],
     "Iteration step bookkeeping and convergence test.",
     "property-based testing: stateful comparison with a hand-written inference loop",
     NOTE)

prop("C20", "Rotations preserve the model and their costs are exact",
     "Rotating, translating or scaling variables for faster learning leaves the invariant "
     "moments and likelihood terms unchanged, transforms the factors exactly, changes the lower "
     "bound by exactly the cost that the optimiser reports with exact gradients, reaches a "
     "stationary point and never lowers the bound when optimised, and later updates continue monotonically.",
     ["inputs", "configurations", "histories"],
     "all rotation matrices, rotated node types, plates, masks, models, numbers of iterations",
     "Tests compare a few fixed models; every matrix, broadcasted prior, plate layout and joint "
     "rotation must agree with the true change of the bound.",
     ["bayespy/inference/vmp/transformations.py", N + "gaussian.py",
      N + "gaussian_markov_chain.py", "bayespy/utils/optimize.py"],
     "Parameter-expanded variational inference through rotations of Gaussian nodes.",
     "property-based testing: metamorphic relation between costs, bounds and moments",
     NOTE)

prop("C03", "Exact conjugate inference where the posterior is tractable",
     "When the variational family contains the true posterior (one latent variable, a Gaussian "
     "or categorical Markov chain, a Gaussian-gamma variable), one update yields exactly the "
     "Bayesian posterior and the lower bound equals the log evidence; for factorised Gaussian "
     "models the bound never exceeds the log evidence and converges to the exact means.",
     ["inputs", "configurations"],
     "all models, node types, data, missing values, plate layouts, chain lengths",
     "Tests compare a few nodes against stored numbers; exactness against Bayes' theorem must "
     "hold for every model, parameter, missing-data pattern and chain.",
     [N + "expfamily.py", N + "gaussian.py", N + "gaussian_markov_chain.py",
      N + "categorical_markov_chain.py", N + "mixture.py", N + "gamma.py", N + "dot.py",
      "bayespy/utils/linalg.py", "bayespy/inference/vmp/vmp.py"],
     "Variational message passing, Kalman smoothing, the forward-backward recursion.",
     "property-based testing: differential against closed-form posteriors and evidence, and "
     "Bayes' theorem at random points of random models",
     NOTE)

prop("C17", "Random draws follow the current distribution",
     "A random draw from a variable, or from a sum of products of variables, has the shape of "
     "the variable, lies in its support and follows its current (prior or posterior) "
     "distribution independently in every plate; the sampling utilities draw from the "
     "distributions they document.",
     ["inputs", "configurations"],
     "all node types with sampling, arbitrary natural parameters, broadcasted plates, all "
     "sampling utilities",
     "Tests check shapes or a few sample moments with loose bounds; the whole distribution must "
     "be right for every parameter and plate layout.",
     [N + "expfamily.py", N + "gaussian.py", N + "categorical_markov_chain.py",
      N + "categorical.py", N + "multinomial.py", N + "mixture.py", N + "dirichlet.py",
      N + "gamma.py", N + "dot.py", "bayespy/utils/random.py"],
     "Sampling from natural parameters; random utilities.",
     "property-based testing: goodness-of-fit tests of samples (three independent failures at "
     "1e-6 needed) and exact support and shape checks",
     "Statistical: distortions well below a few percent of a standard deviation go unseen.")

prop("C26", "Observing, initialising and deleting act exactly and leave no trace",
     "Observing, unobserving, setting, initialising (from the prior, parameters, values or at "
     "random), deleting variables and giving constants new values change exactly the plates and variables they name, to "
     "exactly the stated values, and the resulting state, masks, bound and later updates equal "
     "those of a newly built model, whatever the history.",
     ["histories", "inputs", "configurations"],
     "all histories of operations, models, masks, values, parameters",
     "Tests perform one operation on a fresh node; histories that re-observe, unobserve, delete "
     "and re-initialise are not sampled.",
     [N + "stochastic.py", N + "expfamily.py", N + "node.py", N + "deterministic.py",
      N + "gaussian.py", N + "gamma.py", N + "dirichlet.py"],
     "Observation masks, moment initialisation, graph surgery.",
     "property-based testing: stateful histories against newly built models",
     NOTE)

prop("C27", "Updates are local and repeatable; queries and inputs stay untouched",
     "An update changes only its own variable, does not depend on that variable's earlier "
     "factor, repeated at once changes nothing, commutes with the update of a variable it shares "
     "no factor with, and is reproducible; queries (moments, bound, gradients, samples, "
     "densities, messages) change no state, user arrays are never modified, and variables "
     "without observed descendants influence nothing.",
     ["histories", "inputs", "configurations"],
     "all models, states, queries, pairs of variables",
     "Tests look at return values, not at what else changed.",
     [N + "expfamily.py", N + "stochastic.py", N + "node.py", N + "categorical.py",
      "bayespy/inference/vmp/vmp.py"],
     "Message passing and state of the nodes.",
     "property-based testing: metamorphic relations and bitwise state snapshots",
     NOTE)

prop("C10", "Sums, products and concatenations are exact expectations",
     "For any composition of SumMultiply, Dot, Add and ConcatGaussian of independent Gaussian, "
     "Gaussian-gamma, Markov chain and constant arrays (any keys, broadcasting of axes and "
     "plates), the result has the exact mean and second moment of that expression, a child's "
     "bound is the exact expected log density, and the message to each variable is the exact "
     "expected log likelihood as a function of that variable.",
     ["inputs", "configurations"],
     "all expressions in which each variable occurs once, all shapes, plates, masks, children",
     "Tests use a few fixed products with two or three parents; cross terms, key orders and "
     "broadcasting multiply the number of cases far beyond them.",
     [N + "dot.py", N + "add.py", N + "concat_gaussian.py", N + "gaussian.py",
      N + "gaussian_markov_chain.py", N + "deterministic.py"],
     "Second moments and messages are assembled from parents' moments by einsum.",
     "property-based testing: differential against exact simplex-point quadrature of the plain "
     "array expression",
     NOTE)

prop("C11", "Plate slicing, taking, concatenating, tiling and gating act as indexing",
     "For variables of every type, any composition of indexing (integers, slices with any step, "
     "new axes, ellipsis), Take, Concatenate, tile, Gate and Choose has exactly the plates and "
     "moments that numpy indexing and averaging over the assignment probabilities give, and "
     "children send each variable and each assignment exactly the message of the transposed "
     "map, for broadcasted, repeated, shared and masked elements.",
     ["inputs", "configurations"],
     "all index expressions, axes, plate layouts, variable types, masks, nested up to depth 3",
     "Tests index a Gaussian node a few fixed ways; compositions, steps, repeated elements and "
     "broadcasted axes are unbounded.",
     [N + "node.py", N + "take.py", N + "concatenate.py", N + "gate.py", N + "deterministic.py"],
     "Reverse indexing of messages and masks through plate operations.",
     "property-based testing: differential against numpy indexing of one-hot plate elements "
     "(the exact linear map and its transpose)",
     NOTE)

prop("C12", "Mixtures equal the enumeration of their assignments",
     "A Mixture of any class (nested mixtures and MultiMixture included, any cluster plate, "
     "plate layout, shared or varying parameters, latent, observed or masked) has the plates, "
     "prior parameters, bound term and messages to every parameter and assignment that result "
     "from averaging an ordinary node of that class over all assignments.",
     ["inputs", "configurations"],
     "all mixed classes, up to three nested assignments, all plate layouts and masks",
     "Tests use a few fixed mixtures; axis bookkeeping over cluster plates, nested levels and "
     "variable dimensions has to be right in all combinations.",
     [N + "mixture.py", N + "categorical.py", N + "binomial.py", N + "multinomial.py",
      N + "categorical_markov_chain.py", N + "gaussian_markov_chain.py", N + "stochastic.py"],
     "Mixture distribution wraps any exponential-family distribution.",
     "property-based testing: differential against enumeration with ordinary single nodes",
     NOTE)

prop("C13", "Linear Markov chains equal their dense joint Gaussian expectations",
     "GaussianMarkovChain (with and without inputs), VaryingGaussianMarkovChain and "
     "SwitchingGaussianMarkovChain have the prior parameters, lower bound term and implemented "
     "messages to initial state, dynamics, noise, inputs, weights and switches that the expected "
     "log density of the written-out chain gives, for all plates and plate broadcasts, for fixed "
     "and random parents, and for latent, observed and partly masked chains.",
     ["inputs", "configurations"],
     "all state and input sizes, chain lengths, plate layouts, parents fixed or random",
     "Tests use small fixed chains; cross terms between shifted moments, time-varying weights "
     "and plates have to agree in every combination.",
     [N + "gaussian_markov_chain.py"],
     "Block-banded natural parameters and shifted cross moments assembled by einsum.",
     "property-based testing: differential against dense sums over time steps and coordinates",
     NOTE)

prop("C14", "Hidden Markov models equal the enumeration of all state paths",
     "For CategoricalMarkovChain with any plates, fixed or random initial and transition "
     "probabilities, and any emissions (mixtures, gates, several data sets, states selected or "
     "repeated by indexing, masked data, extra plates), the updated marginals, pairwise "
     "marginals, bound terms and messages to initial and transition probabilities and emission "
     "parameters are those obtained by listing every state path.",
     ["inputs", "configurations"],
     "all chain lengths and state counts up to 81 paths, plate layouts, masks, emissions",
     "Tests use a few fixed chains with one emission; zero probabilities, broadcasted "
     "transition tables and partially masked chains matter.",
     [N + "categorical_markov_chain.py", N + "categorical.py", N + "dirichlet.py",
      N + "mixture.py", "bayespy/utils/random.py"],
     "Forward-backward recursion and conversion of chains to categorical variables.",
     "property-based testing: differential against enumeration of all state paths",
     NOTE)

prop("C22", "Deterministic annealing optimises its tempered bound",
     "With annealing coefficient b the reported bound is the expected log joint plus 1/b times "
     "the entropies (relative to the base measure); the update of any variable yields exactly b "
     "times the ordinary natural parameters, gradients are those of this bound, updates in any "
     "order never decrease it, and returning to b=1 restores ordinary inference.",
     ["inputs", "configurations", "histories"],
     "all model graphs, coefficients in (0,1], schedules; Wishart posteriors kept proper",
     "Tests anneal two small models; the coefficient enters updates, gradients and bound "
     "separately and must agree for every family, mask and observation pattern.",
     [N + "expfamily.py", "bayespy/inference/vmp/vmp.py"],
     "The coefficient scales parameters, gradients and entropy at three places.",
     "property-based testing: model-based histories against independent formulas of the "
     "tempered bound",
     NOTE)

prop("C23", "Plate multipliers act as repeated data (stochastic inference)",
     "A mini-batch model whose local variables have plate multiplier k gives every shared "
     "variable the update, gradient step and bound of the model in which the batch is written "
     "out k times, with local variables unaffected; a real-valued multiplier acts linearly. "
     "Local variables may pass through any transformation except Take, Concatenate and Choose, "
     "which reject multipliers.",
     ["inputs", "configurations", "histories"],
     "all model graphs, any split into shared and local variables, batch sizes, multipliers "
     "given explicitly or inherited, schedules of updates and gradient steps",
     "Tests cover one or two models with a multiplier; each message path (products, mixtures, "
     "slices, conversions) has to apply it exactly once.",
     [N + "node.py", N + "stochastic.py", N + "dot.py", N + "expfamily.py", N + "gate.py",
      "bayespy/inference/vmp/vmp.py"],
     "Messages are scaled by the ratio of multipliers of node and parent.",
     "property-based testing: metamorphic relation between a multiplied batch and repeated data",
     NOTE)

prop("C21", "Optimisers never lose lower bound and leave a consistent state",
     "A gradient step moves the given variables jointly from the current parameters towards "
     "their coordinate optima by the given scale. optimize (any method, Riemannian or not, with "
     "collapsed variables) and pattern_search terminate, never decrease the bound from any "
     "starting state, record exactly the bound of the state they leave, leave every variable a "
     "valid distribution, keep all other variables and finish with collapsed variables updated.",
     ["inputs", "configurations", "histories"],
     "all model graphs, subsets of optimised and collapsed variables, states reached by "
     "updates, by hand or by annealing",
     "Tests optimise one or two small models from one state; invalid trial points and failed "
     "steps need specific states.",
     ["bayespy/inference/vmp/vmp.py", N + "expfamily.py"],
     "Line search with restoring of parameters and conjugate directions.",
     "property-based testing: model-based histories, invariants over the recorded bounds",
     NOTE)

prop("C24", "Invalid input is rejected and changes nothing",
     "Data, initial values or posterior parameters of wrong shape or outside the support, masks "
     "that do not fit, inconsistent node constructions (shapes, plates, parent types, cluster counts, axes, "
     "parameters out of range) and calls naming unknown nodes raise an error; afterwards every "
     "node's state is unchanged and further inference equals that of a model in which nothing "
     "was attempted.",
     ["inputs", "configurations", "histories"],
     "all node families, valid prior states (initial, observed, partly observed, updated), one "
     "invalid element at any position, about 50 kinds of invalid construction",
     "Tests check that a few errors are raised, not that the model survives them, nor errors at "
     "arbitrary positions.",
     [N + "node.py", N + "stochastic.py", N + "expfamily.py", N + "gaussian.py", N + "gamma.py",
      N + "poisson.py", N + "binomial.py", N + "multinomial.py", N + "categorical.py",
      N + "mixture.py", N + "gate.py", N + "take.py", N + "dot.py",
      "bayespy/inference/vmp/vmp.py"],
     "Validation happens at many layers, some after state has been changed or parents notified.",
     "property-based testing: one fault injected into generated valid input, differential "
     "against the model without the attempt",
     NOTE)

prop("C25", "Equivalent formulations of a model give the same inference",
     "Array axes given as variable axes or as plates, Gaussian precisions given as matrices, "
     "scalars, Gamma or Wishart variables, one-cluster or one-hot mixtures, Beta/Bernoulli/"
     "Binomial and Dirichlet/Categorical/Multinomial counterparts, gates against mixtures and "
     "chains against explicit conditionals or stacked Gaussians give the same posteriors and, "
     "up to the known constant, the same bound after every update.",
     ["inputs", "configurations", "histories"],
     "six families of formulation pairs over random sizes, plates, broadcasts, masks, parameters "
     "and update orders",
     "Tests check each node by itself; nothing compares formulations.",
     [N + "gaussian.py", N + "gamma.py", N + "wishart.py", N + "dot.py", N + "mixture.py",
      N + "gate.py", N + "bernoulli.py", N + "binomial.py", N + "beta.py", N + "multinomial.py",
      N + "categorical.py", N + "gaussian_markov_chain.py", N + "categorical_markov_chain.py"],
     "The same distribution is implemented by several nodes and by converters between them.",
     "property-based testing: metamorphic, two formulations run through one schedule",
     NOTE)

prop("C30", "Printing a variable shows its current posterior",
     "str() of a variable names it and its family and shows the parameters of its current "
     "posterior (mean and covariance, shape and rate, degrees of freedom and scale, "
     "concentrations, probabilities) for every size, plates and state.",
     ["inputs", "configurations"],
     "all printable families, plates and broadcasts, states from prior, update, given values "
     "or given parameters",
     "Tests never look at printed values.",
     [N + "gaussian.py", N + "gamma.py", N + "wishart.py", N + "dirichlet.py", N + "beta.py",
      N + "categorical.py", N + "bernoulli.py", N + "binomial.py", N + "multinomial.py",
      N + "poisson.py"],
     "Each family has its own __str__ which decodes natural parameters or moments.",
     "property-based testing: printed numbers parsed back and compared with formulas",
     NOTE)

prop("C31", "Point estimates are stationary points of the bound",
     "GammaShape and Concentration take, after an update, the value where the bound (with "
     "Concentration's regularisation counted per element) is stationary, and the bound never "
     "decreases; gradients of MaximumLikelihood nodes through Function equal derivatives of the "
     "bound in the optimised parameters, and optimising them never loses bound.",
     ["inputs", "configurations", "histories"],
     "plates, masks, initial values, any order of updates; problems with a bounded optimum",
     "Tests run one fixed-point iteration on one data set.",
     [N + "gamma.py", N + "dirichlet.py", "bayespy/inference/vmp/nodes/ml.py",
      "bayespy/utils/misc.py", "bayespy/inference/vmp/vmp.py"],
     "Fixed-point iterations on messages, gradients passed through user functions.",
     "property-based testing: stationarity derived from the densities; numerical derivatives",
     NOTE)

prop("C28", "Plots show the current posterior and leave the model unchanged",
     "Function, Hinton, density, contour, marginal and ellipse plots draw the posterior of the "
     "plotted variable (means, error bands, densities, outlines) in the documented layout and on "
     "the given axes or figure; VB.plot and update(plot=...) call each plotter once, in order, "
     "with the current posterior; plotting never changes the model.",
     ["inputs", "configurations", "histories"],
     "all plotted families, plates and broadcasts, axes, rows and columns, scales, grids of "
     "different lengths; sequences of updates and plots",
     "Tests hardly plot and never read back what was drawn.",
     ["bayespy/plot.py", "bayespy/inference/vmp/vmp.py", N + "node.py", N + "gaussian.py",
      N + "stochastic.py"],
     "Each plot function decodes and broadcasts moments on its own; figures are kept per node.",
     "property-based testing: artists read back from matplotlib against independent formulas",
     NOTE)

prop("C29", "The bundled example models run and learn",
     "For every size, data set and pattern of missing values, the complete models and inference "
     "loops in bayespy.demos (PCA, state-space models with rotations, switching or drifting "
     "dynamics, hidden Markov models, mixtures, topic models, stochastic and annealed inference) "
     "run, have finite bounds which never decrease under VB updates, and repeat exactly for one "
     "seed.",
     ["inputs", "configurations", "histories"],
     "all bundled examples except the unimplemented black-box one; drawn sizes, seeds, masks, "
     "iteration counts and options",
     "No test runs them.",
     ["bayespy/demos/lssm.py", "bayespy/demos/pca.py", "bayespy/demos/mog.py",
      "bayespy/demos/lda.py", "bayespy/demos/hmm.py", "bayespy/inference/vmp/vmp.py",
      "bayespy/inference/vmp/transformations.py"],
     "Whole-model interplay of many node types, plates, masks, engine features and plots.",
     "property-based testing: engines recorded while drawn examples run; bound monotone",
     NOTE)

prop("C32", "Arrays are read by value, whatever their form",
     "Giving data, masks, constants, initial values, parameters or function arguments with the same "
     "numbers as lists, read-only, transposed, strided or reversed arrays, broadcast views or small "
     "integer types gives the same nodes, posteriors, bounds and results; the arrays given stay "
     "unchanged, and overwriting them after the call has no effect on nodes or later inference.",
     ["inputs", "configurations", "histories"],
     "all node families with sequences of operations, twelve kinds of whole models, forty linear "
     "algebra, array and random helpers; a random form for every array",
     "Tests give fresh contiguous arrays of the default types and never touch them again.",
     [N + "constant.py", N + "expfamily.py", N + "stochastic.py", N + "gaussian.py", N + "gamma.py",
      N + "wishart.py", N + "gaussian_markov_chain.py", N + "categorical.py", N + "poisson.py",
      N + "binomial.py", N + "multinomial.py", N + "take.py", N + "gate.py",
      "bayespy/utils/linalg.py", "bayespy/utils/misc.py", "bayespy/utils/random.py"],
     "Squares and products are computed in the type given, arrays are raveled, reshaped, "
     "overwritten by LAPACK or kept.",
     "property-based testing: metamorphic, two histories differing only in the form of the arrays",
     NOTE)
