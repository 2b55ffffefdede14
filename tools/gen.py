#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "pysgmcmc/samplers/"
BASE, SGHMC, SGLD, REL, SVGD = (S + f for f in ("base_classes.py", "sghmc.py", "sgld.py", "relativistic_sghmc.py", "svgd.py"))
BNN, BM, DB = "pysgmcmc/models/bayesian_neural_network.py", "pysgmcmc/models/base_model.py", "pysgmcmc/data_batches.py"
SCH, SMP, TU = "pysgmcmc/stepsize_schedules.py", "pysgmcmc/sampling.py", "pysgmcmc/tensor_utils.py"
TR, SD, OB = ("pysgmcmc/diagnostics/" + f for f in ("sample_chains.py", "sampler_diagnostics.py", "objective_functions.py"))
ALLS = [BASE, SGHMC, SGLD, REL, SVGD]

VALUE = "abstract interpretation with value-graph comparison"
EVENT = "abstract interpretation with event/ordering rules"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)], technique
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, scope, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, scope=scope))


prop("C01", "Every minibatch is a window of matching rows",
     "Every batch of the plain minibatch generator pairs min(batch size, dataset size) consecutive rows of the inputs with the labels of exactly those rows (labels as a column), feeds them to the two given placeholders (or yields the pair when no placeholders are given) and is drawn afresh, so every window start from 0 to dataset size minus batch size inclusive is reachable and equally likely. The stream never ends. This holds for every dataset size, batch size, seed and batch index.",
     ["inputs", "histories"], "all dataset sizes, batch sizes, seeds and positions in the stream",
     "tests draw a few random sizes and look at lengths; they cannot exclude an off-by-one or a mismatch at another size, seed or step",
     [DB], [("window start drawn and both arrays sliced with it", DB + ": generate_batches")], VALUE,
     "dataset size, batch size and seed are symbolic (bounded integer ranges), x has two columns; first items of the stream")
prop("C02", "Shuffled minibatches keep rows and labels together",
     "Every batch of the shuffled minibatch generator is one reordering, applied to inputs and labels alike, of a window of min(batch size, dataset size) consecutive rows of the (already reordered) dataset: each input row still carries its own label, no row occurs twice, every row can land at any position, and order and window are drawn afresh for each batch.",
     ["inputs", "histories"], "all dataset sizes, batch sizes, seeds and positions in the stream",
     "tests look at batch shapes only; a divergence of the two orders shows as wrong labels, not as an error",
     [DB], [("one state used to shuffle inputs and labels", DB + ": generate_shuffled_batches")], VALUE,
     "as C01; a shuffle is modelled as an arbitrary permutation determined by generator state and length")
prop("C03", "Data handed to the library is never modified",
     "Arrays given to the minibatch generators, to the network's training and prediction, to the normalisation functions and to the base model are never written through any alias, and a batch already handed out is not changed by later batches.",
     ["inputs", "histories"], "all call sequences of these entry points",
     "no test compares its inputs before and after; aliasing writes are silent",
     [DB, BNN, BM], [("copies before in-place shuffles", DB + ": generate_shuffled_batches")], "ownership (alias/effect) analysis by abstract interpretation",
     "every write to an array is attributed to its owner through views and slices")
prop("C04", "A seeded minibatch stream is a function of its arguments",
     "With a seed, the batches of either generator depend on the data, batch size and seed alone: not on operating system entropy, on the process-wide random state, or on other generators interleaved with it, and different seeds select different streams. Without a seed, streams differ from call to call.",
     ["inputs", "schedules", "histories"], "all seeds and all interleavings with other users of random state",
     "a test fixes one seed and one interleaving",
     [DB], [("private random state reset from the seed", DB + ": generate_batches, generate_shuffled_batches")], "dataflow (taint) analysis with value-graph comparison",
     "the second stream is analysed after arbitrary disturbance of global state and next to other generators")
prop("C05", "Malformed minibatch requests are rejected before any batch",
     "Both minibatch generators raise instead of yielding a batch when the batch size is not a positive integer, when inputs and labels differ in length, or when the seed is no integer in 0..2^32-1; requests that are well formed, including a batch size above the dataset size, an explicit seed of zero, and no seed, are never rejected.",
     ["inputs"], "all batch sizes, seeds and length combinations",
     "tests sample a handful of invalid values",
     [DB], [("argument assertions", DB + ": generate_batches, generate_shuffled_batches")], "path-condition reachability by abstract interpretation",
     "malformed ranges are symbolic; rejection may come at the call or at the first item")
prop("C06", "One iteration of a sampler is one complete step",
     "Each iteration of any sampler draws exactly one batch (if a batch generator is given) and one step size, writes every parameter exactly once, returns the parameters after that update together with the cost at the parameters before it (on this step's batch), and tells the schedule about that sample and cost exactly once; a single parameter comes bare and several as a list, during burn-in and after. Nothing is drawn at construction, samplers iterate over themselves without end, and steps add no operations to the graph.",
     ["histories", "configurations"], "all samplers, numbers and shapes of parameters, burn-in lengths, with and without batches, and steps",
     "tests run a few configurations and check that numbers come out; protocol slips between batch, step size, cost and sample are numerically invisible",
     ALLS, [("step entry points", BASE + ": MCMCSampler.__next__, BurnInMCMCSampler.__next__"), ("update operations", "samplers' constructors")], EVENT,
     "first steps of each configuration; the graph each step runs is compared by value")
prop("C07", "Burn-in lasts exactly as requested and then adaptation freezes",
     "A sampler with burn-in adapts its preconditioning state in exactly the first requested number of steps and uses the frozen state in all later ones, while parameters keep moving and the reported burn-in flag agrees; the number of steps has to be an integer, and zero means no adaptation at all. Feeds the caller passes to a step reach that step during burn-in and after it.",
     ["histories", "configurations"], "all burn-in lengths (including zero), step indices and caller feeds",
     "tests check that sampling works after burn-in, not when adaptation stops",
     [BASE, SGHMC, SGLD], [("step counter choosing what is run", BASE + ": BurnInMCMCSampler.__next__"), ("minv/tau/g updates", SGHMC + ", " + SGLD)], EVENT,
     "several burn-in lengths, steps around the switch; state is compared by value")
prop("C08", "Every step uses the schedule's current step size",
     "The k-th step of every sampler uses exactly the k-th value drawn from the step-size schedule it was given (the default being constant 0.01, or 0.1 for the kernelised sampler), never an earlier, later or initial value, and the reported cost does not depend on it.",
     ["inputs", "histories"], "all schedules and steps", "tests use constant schedules, for which any stale value is indistinguishable",
     ALLS + [SCH], [("step size fed in each step", BASE + ": _next_stepsize, __next__")], VALUE, "schedule values are distinct free symbols")
prop("C09", "Seeds determine the noise; every draw is its own",
     "Each step of a stochastic sampler perturbs every element of every parameter with its own fresh draw, independent across parameters, elements and steps; with a seed the noise is a reproducible function of that seed (different seeds giving different noise, zero being a seed) and without one it varies. The kernelised sampler draws nothing, and a seed that is no integer is refused.",
     ["inputs", "histories"], "all parameter sets, shapes, seeds and steps", "tests cannot see that two parameters share a noise stream, nor that a draw is broadcast",
     ALLS, [("random operations and their seeds", BASE + ": _draw_noise_sample and samplers' constructors")], "dataflow analysis over the interpreted graph",
     "draws are identified by operation, seed and element")
prop("C10", "SGHMC steps follow the documented recurrence",
     "Each step of the SGHMC sampler moves parameters and momentum, and during burn-in the smoothed gradient statistics, by the scale-adapted SGHMC recurrence of Springenberg et al. (2016) as documented: friction, step size, gradient scale, preconditioner and noise variance (never negative) enter exactly so, with the values current in that step. It holds element-wise for every parameter, shape, hyperparameter and gradient.",
     ["inputs", "histories"], "all parameter values, gradients, hyperparameters, shapes and steps", "tests only check that a sampled chain is roughly plausible; wrong factors go unnoticed",
     [SGHMC, BASE], [("update equations", SGHMC + ": SGHMCSampler.__init__")], VALUE,
     "cost is an uninterpreted function, state, gradients and hyperparameters are free symbols; reals, no rounding")
prop("C11", "SGLD steps follow the documented recurrence",
     "Each step of the SGLD sampler moves parameters, and during burn-in the smoothed gradient statistics, by the documented preconditioned Langevin recurrence: step size, gradient scale, the two preconditioner constants and the noise variance (never negative) enter exactly so. It holds element-wise for every parameter, shape, hyperparameter and gradient.",
     ["inputs", "histories"], "all parameter values, gradients, hyperparameters, shapes and steps", "as C10",
     [SGLD, BASE], [("update equations", SGLD + ": SGLDSampler.__init__")], VALUE, "as C10")
prop("C12", "Relativistic SGHMC steps follow the documented recurrence",
     "For scalar parameters, each step of the relativistic sampler follows the documented recurrence in momentum, mass, speed of light, friction and noise estimate, and the initial momenta are one draw per parameter from the relativistic momentum density over the whole real line.",
     ["inputs", "histories"], "all parameter values, gradients, hyperparameters and steps", "as C10",
     [REL, BASE], [("update equations and momentum sampling", REL + ": RelativisticSGHMCSampler.__init__, _sample_relativistic_momentum")], VALUE,
     "as C10; scalar parameters only, the adaptive rejection sampler is trusted")
prop("C13", "SVGD steps follow the documented recurrence",
     "Each step of the Stein variational sampler moves all particles by the documented kernelised update (RBF kernel with median bandwidth, attraction along the kernel-averaged log density gradient, repulsion away from other particles, Adagrad-style scaling with the given decay and fudge factor), for any number and shape of particles and more than one sampler per graph.",
     ["inputs", "histories"], "all particle sets, gradients, hyperparameters and steps", "as C10",
     [SVGD, TU], [("kernel and update equations", SVGD + ": SVGDSampler.__init__, svgd_kernel")], VALUE, "as C10; at least two distinct particles for the bandwidth")
prop("C14", "A step's result does not depend on execution order",
     "In every graph run of a sampler step, no two operations that touch the same variable, at least one of them writing, are left unordered by data or control dependencies, every variable has one writer, and the reported cost and all gradients are those of the state before the step.",
     ["schedules"], "all schedules of the graph runtime", "the runtime's scheduling is fixed on one machine; tests cannot force another order",
     ALLS, [("control dependencies between reads and assigns", "samplers' constructors")], "race (happens-before) analysis of the interpreted graph",
     "reads are taken to happen when a consumer executes; parallel threads of a run are modelled by the partial order only")
prop("C15", "The sampler factory builds what was asked for, or refuses",
     "Asking the factory for a method returns a sampler of that method constructed with exactly the caller's arguments and, for those left out, the constructor's own defaults; an argument the method does not take, or a missing required one, is refused with a value error before anything is built. The predicates on methods agree with which samplers have a burn-in.",
     ["inputs", "configurations"], "all methods and subsets of arguments, including falsy values", "tests try one argument set per method",
     [SMP] + ALLS, [("argument matching", SMP + ": Sampler.get_sampler")], VALUE, "constructors are replaced by recorders that bind arguments as declared")
prop("C16", "The network forwards its configuration, or refuses it",
     "Training the Bayesian network builds one network and one sampler with exactly the configured method, schedule, burn-in, batch size, seed, precision, session and extra sampler options, over all network parameters, with the gradient scale set to the dataset size and batches over the training data. Invalid settings (non-positive step counts, thinning or batch size, too few iterations, unsupported methods or options) are refused, valid ones accepted.",
     ["configurations", "inputs"], "all combinations of configuration values", "tests cover one or two configurations",
     [BNN, SMP], [("constructor assertions", BNN + ": __init__"), ("sampler construction", BNN + ": train")], VALUE, "configuration values are free symbols or representative extremes")
prop("C17", "Training retains exactly the thinned samples after burn-in",
     "Training retains, in order, complete and unmodified by later steps, the parameter samples of exactly those sampler iterations that come after the burn-in and whose index is a multiple of the thinning interval; it ends as soon as the requested number of networks is retained, and otherwise after exactly the configured number of iterations. Nothing from burn-in or from an earlier training is retained.",
     ["histories", "configurations"], "all iteration counts, burn-in lengths and thinning intervals", "tests check the number of samples in one configuration",
     [BNN], [("sampling loop", BNN + ": train")], EVENT, "representative configurations with free sample values, parameters as lists and bare")
prop("C18", "Training and queries use the training normalisation throughout",
     "With input normalisation on, network and batches see training inputs standardised by the training set's column means and deviations, and queries are standardised by those same statistics; with output normalisation on, training labels are standardised and predicted means and variances are mapped back to the original scale. With either off, data is used as given.",
     ["inputs", "configurations"], "all data and both switches", "tests check prediction error bounds only",
     [BNN, BM], [("normalisation", BNN + ": train, predict"), ("statistics", BM + ": zero_mean_unit_var_normalization")], VALUE, "free data elements; no constant column")
prop("C19", "Predictive mean and variance are those of the retained ensemble",
     "A prediction evaluates the network at each query point with each retained parameter sample and returns the mean and the (population) variance of the predicted means over the ensemble, or, on request, every network's own mean and predicted noise variance, in the order of retention. Predicting neither samples nor changes the ensemble, so equal queries give equal answers.",
     ["inputs", "histories"], "all retained ensembles, queries and numbers of networks", "tests compare against loose error bounds",
     [BNN], [("ensemble statistics", BNN + ": predict")], VALUE, "network is an uninterpreted function of input and parameters")
prop("C20", "No predictions before training; bad shapes are refused",
     "A network refuses to predict until a training has completed, also after a training that was refused, and whenever its latest training failed part-way; inputs that are no matrix, labels that are no vector, or differing lengths are refused before any sampling, and a query that is no matrix is refused.",
     ["histories", "inputs"], "all call orders, failure points and array shapes", "tests only predict on a fresh network",
     [BNN], [("trained flag and shape checks", BNN + ": train, predict")], EVENT, "failures at several steps and in the network function")
prop("C21", "The training objective is the documented posterior",
     "The cost minimised in training is minus the sum of the Gaussian log likelihood of the batch under the network's predicted mean and log variance, averaged over the batch, and, each divided by the number of data points, the log-normal prior on the predicted variances and the Gaussian prior averaged over the weights, all with the documented constants.",
     ["inputs"], "all batches, predictions, weights, batch sizes and dataset sizes", "prior tests compare with three stored arrays",
     [BNN], [("likelihood and priors", BNN + ": negative_log_likelihood, log_variance_prior_log_like, weight_prior_log_like")], VALUE, "free symbols for predictions, labels and weights; reals")
prop("C22", "Vectorising and unvectorising are inverse and loss-free",
     "Vectorising a tensor or variable of any rank gives the column of all its elements in row-major order, of the same type and kind, leaving the original untouched (a variable yields a new variable), and unvectorising with the original shape gives every element back in place; anything else is refused with a value error.",
     ["inputs"], "all ranks, shapes and elements", "tests use a few random shapes",
     [TU], [("reshapes", TU + ": vectorize, unvectorize")], VALUE, "ranks 0 to 4, free elements")
prop("C23", "Safe division and safe roots apply the documented guards",
     "Safe division returns numerator over (denominator + 2 sign(denominator) c + c) with c the small constant (1e-16 by default), so that a zero denominator never yields an infinity; a safe root is the root of the argument clipped to the given bounds, by default to non-negative values, so that the root of a negative number is zero.",
     ["inputs"], "all operands, constants and bounds", "nothing tests them at zero or below",
     [TU], [("shifted denominator, clipped radicand", TU + ": safe_divide, safe_sqrt")], VALUE, "operands are tensors of one type, or Python numbers as numerators")
prop("C24", "Pairwise distances, square form and median match their definitions",
     "Pairwise distance of a matrix gives the Euclidean distances of all row pairs in condensed order; square form turns a condensed vector into the symmetric matrix with zero diagonal; the median is the middle element, or the mean of the two middle ones. Inputs of another rank, a length that is no triangular number, or an unknown metric are refused.",
     ["inputs"], "all matrices, vectors and elements", "tests compare with scipy on random inputs of a few sizes",
     [TU], [("tensor utilities", TU + ": pdist, squareform, median")], VALUE, "sizes enumerated, elements free; non-empty tensors")
prop("C25", "Uninitialised variables are named exactly",
     "Listing uninitialised parameters returns exactly those of the given variables that the given session has not initialised, in order, initialises nothing, and depends on that session alone.",
     ["histories"], "all subsets and initialisation orders, more than one session", "tests use one all-or-nothing case",
     [TU], [("initialisation query", TU + ": uninitialized_params")], EVENT, "all subsets of up to four variables")
prop("C26", "A trace holds the sampler's values under the right names",
     "A trace extracted from a sampler holds every keep-th sample (the first included), as many as asked, with each parameter's values under its name, whatever the number and shape of parameters; look-up by name or index, points, burn, thin and slicing return exactly those values, and unknown names, bad indices and inconsistent sample sets are refused.",
     ["inputs", "histories"], "all sample counts, thinning, parameter shapes and names", "only docstring examples, on scalars",
     [TR], [("trace adapter", TR + ": PYSGMCMCTrace")], VALUE, "representative chains of free values")
prop("C27", "Multi-chain diagnostics run independent chains and hand all on",
     "Multi-chain sampling calls the factory once per chain with an open session on a fresh graph of its own, initialises the variables that the factory left uninitialised (and no others: a sampler that is already burnt in continues from where it is) before sampling, takes the requested number of samples, thinning and names for each chain, numbers chains from zero, closes what it opened, and hands all chains in order to the diagnostic that was asked for, whose result is returned.",
     ["configurations", "histories"], "all chain counts, sample counts, thinning and names", "the diagnostics are not tested",
     [TR, SD], [("chain loop", TR + ": pymc3_multitrace"), ("dispatch", SD)], EVENT, "pymc3 is a stand-in; samplers are stand-ins and two of the repository's")
prop("C28", "Objective functions are the published ones",
     "Each benchmark objective (banana, Gaussian mixtures, sinc, Bohachevski, Branin, camelback, Goldstein-Price, Hartmann 3 and 6, Levy, Rosenbrock, sine functions) equals its published formula at every point, for numbers, arrays and, where documented, tensors of either precision; invalid mixtures are refused. The negation wrapper returns the negated value of the function it wraps, with all arguments forwarded and its name kept.",
     ["inputs"], "all points and mixture parameters", "not tested; wrong constants are invisible to sampling",
     [OB], [("formulas", OB)], VALUE, "coordinates are free symbols; mixture parameters given as numbers")
prop("C29", "A constant schedule is constant",
     "A constant step-size schedule returns its initial value, unconverted, at every step for ever, whatever it is told in updates and next to other schedules; its text names that value.",
     ["histories"], "all values, update sequences and steps", "tests look at a few steps of one value",
     [SCH], [("schedule iteration", SCH + ": ConstantStepsizeSchedule")], VALUE, "free initial value; interleaved updates")
prop("C30", "Normalisers invert exactly; the base model keeps all its data",
     "Standardising and scaling to the unit interval use the given statistics (zero included) or else those of each column, return them, and are undone exactly by their inverses. Updating a model retrains it once on old data followed by new data, and the incumbent is the observed point with the smallest value together with that value. Its JSON form holds the data as plain nested lists, and nothing before there is data.",
     ["inputs"], "all arrays, shapes and given statistics", "not tested directly",
     [BM], [("normalisers and base model", BM)], VALUE, "shapes enumerated, elements free; no constant column")
prop("C31", "All tensors of a sampler have the requested precision",
     "With either supported floating point type requested, every variable, draw, placeholder and intermediate tensor a sampler creates has that type, so that no construction or step mixes precisions.",
     ["configurations"], "all samplers and both types", "tests run the default type",
     ALLS, [("dtype arguments", "samplers' constructors")], "type analysis by abstract interpretation", "types of all graph nodes on all analysed paths")
prop("C32", "Samplers run in the session they were given",
     "A sampler runs everything in the session passed to it, or, when none is passed, in the session that is the default when it is constructed, even if another becomes the default later or was the default at import; without either, or with something that is no session, construction is refused.",
     ["histories", "configurations"], "all samplers and orders of default sessions", "tests always pass a session",
     ALLS, [("session resolution", BASE + ": MCMCSampler.__init__")], EVENT, "interactive and ordinary sessions")
prop("C33", "Samplers are isolated, and caller objects stay as they were",
     "Building or stepping a sampler does not change samples, costs, noise, schedules or batches of any other sampler, also in the same graph and session, and leaves the caller's parameter list, feed dictionaries and batch dictionaries as they were.",
     ["schedules", "histories"], "all pairs of samplers and interleavings of their steps", "tests run one sampler at a time",
     ALLS, [("per-instance state", BASE + ": MCMCSampler.__init__, __next__")], "alias/effect analysis with value-graph comparison", "pairs of samplers, a fixed set of interleavings")
prop("C34", "Importing and using the package leaves process-wide state alone",
     "Importing any module and using samplers, batch generators, the network, tensor utilities, objectives and diagnostics never reseeds or reconfigures process-wide state (random generators, the caller's graph seed, numpy, TensorFlow or logging settings, warnings, environment), leaves default session, default graph and name scopes as they were, and creates no session or variables at import; with a seed given, nothing is drawn from the process-wide random state.",
     ["programs", "histories"], "all importing programs and call sequences", "a test process has no other user of that state to disturb",
     [DB, BNN, TR, SD, OB, TU, SMP, SCH, BM] + ALLS, [("absence of such calls", "whole package")], "effect analysis (who-may-call) by abstract interpretation", "all modules at import, main entry points in use")
prop("C35", "A seeded network run is a function of its arguments",
     "With a seed, everything the outcome of a training depends on, namely initial weights, batches and sampler noise, is determined by the arguments: the seed (zero included) reaches the network function, the batches and the sampler, and neither operating system entropy nor process-wide random state flows into training or prediction.",
     ["inputs", "histories"], "all seeds, data and prior uses of random state", "tests compare two runs in one process for a few seeds",
     [BNN, DB], [("seed forwarding", BNN + ": train")], "dataflow (taint) analysis with value-graph comparison", "the network function is the caller's; thread-level nondeterminism of the runtime is outside")

prop("C36", "The default network is the documented architecture",
     "When no network function is given, the network trained is the default one: three fully connected layers of 50 tanh units and one linear output for the mean, plus a second output that is one trainable constant, the log variance, the same for every input and starting at log(0.001). Weights start as seeded variance-scaling draws (factor 1, fan-in), biases at zero; the nine parameters are trainable, in layer order, and have the requested precision.",
     ["inputs", "configurations"], "all inputs, numbers of features, seeds and precisions", "tests that use it look at shapes of predictions or at loose error bounds after training",
     [BNN], [("layers and output bias", BNN + ": get_default_net")], VALUE,
     "free inputs and weights for a few numbers of rows and features; tensorflow.contrib is not installed here, so its initialiser is modelled from its documentation")
prop("C37", "Progress reports during training only observe",
     "While it trains, the network reports its progress on the whole training set: each report evaluates the training objective and mean squared error at the current parameters, over exactly the training inputs as normalised, with the labels as one column. Reporting is free of side effects: it writes or initialises no variable, draws no batch, step size or noise, and neither changes nor ends the training, whatever the data, batch size, burn-in and thinning.",
     ["inputs", "configurations", "histories"], "all data sets and training configurations", "reports go to a log no test reads; a report on the wrong data, or one that advances a generator, is invisible",
     [BNN], [("evaluation on the full data set", BNN + ": train, log_full_training_error")], VALUE,
     "the sampler and the network function are stand-ins; small data sets with symbolic entries; several configurations")
prop("C38", "Arguments left out mean their documented defaults",
     "Leaving out an optional argument is the same as passing its documented default: for samplers a constant step size (0.01 for SGHMC and SGLD, 0.001 relativistic, 0.1 SVGD), 3000 burn-in steps, momentum decay 0.05, A, mass, speed of light, D and gradient scale 1, noise estimate 0, decay 0.9, fudge factor 1e-6, no batches, no seed, double precision and the default session of that moment; for the network SGHMC with step size 0.01, batches of 20 from the plain generator, 100 networks, 50000 iterations, burn-in 1000, thinning 100, both normalisations, no seed and the default network; likewise for minibatches and the priors.",
     ["configurations", "inputs", "histories"], "all optional arguments, with the others arbitrary, and all steps", "tests pass most arguments explicitly and never run a default length",
     ALLS + [BNN, DB], [("default arguments", "constructors of samplers and network; generate_batches; priors")], VALUE,
     "few parameters and steps; the default lengths are counted through the whole loop over stand-in steps")
prop("C39", "Samplers refuse malformed arguments before touching the session",
     "Constructing any sampler with a cost that is not callable, a batch source that is no iterator, a seed that is neither an integer nor None, something that is no session (or none at all), a precision that is no TensorFlow type, a step size schedule lacking an initial value, next or update, a burn-in length that is no integer, or hyperparameters of the wrong kind raises an error, and nothing has been run in the session by then; well-formed neighbours (seed 0, no batches, no burn-in) are accepted. A step given feeds that are no mapping raises before it takes a batch or a step size.",
     ["inputs", "configurations"], "all samplers and argument kinds", "tests try one malformed argument of the network",
     ALLS, [("sanitising assertions", BASE + ": MCMCSampler.__init__, BurnInMCMCSampler.__init__")], EVENT,
     "one malformed argument at a time, of several kinds; mass and speed of light are only required to be refused, not before the parameters are initialised")
prop("C40", "Samplers start from the parameters' current values",
     "Constructing a sampler gives each of the caller's parameters that its session has not initialised its initial value, and leaves those already initialised, and all other variables of the caller, as they are; once the sampler's own variables are initialised, its first step starts from those current values, exactly as a sampler whose parameters had these values from the beginning.",
     ["histories", "configurations"], "all subsets of initialised parameters, values and other variables of the session", "tests initialise everything at once, so a sampler that resets or ignores moved parameters goes unnoticed",
     [BASE, TU] + ALLS[1:], [("initialisation of uninitialised variables", BASE + ": MCMCSampler.__init__"), ("vectorised clones", TU + ": vectorize")], VALUE,
     "up to three parameters, all subsets; values are free symbols; two steps")

NA = [
    ("C90", "Samplers converge to the target distribution",
     "Samples of every sampler converge in distribution to the density proportional to exp(-cost) (to discretisation error) as steps grow and step sizes shrink.",
     ["inputs", "histories"], "all cost functions and hyperparameters", "tests look at finite chains on one target",
     ALLS, [("update equations", "samplers' constructors")],
     "a limit statement over random histories: no static rule bounds it; its algebraic part is decided by C10 to C13"),
    ("C91", "Effective sample sizes and Gelman-Rubin values are accurate",
     "Reported diagnostics are accurate estimates of the mixing of the given sampler.",
     ["inputs", "histories"], "all samplers and chains", "statistical quantity",
     [SD], [("pymc3", SD)], "the numbers are computed by pymc3, outside this repository, from runtime values; which chains reach it is decided by C27"),
    ("C92", "Predictions of a trained network are accurate",
     "A trained network's predictions approximate the generating function with calibrated uncertainty.",
     ["inputs"], "all datasets", "tests bound the error on one dataset",
     [BNN], [("training", BNN + ": train")], "accuracy is a statement about runtime values of a stochastic optimisation; the estimator's formulas are decided by C19 and C21"),
    ("C93", "Seeded runs are bitwise identical across machines",
     "Two runs with equal seeds produce bitwise identical samples on any machine.",
     ["schedules"], "all devices, thread counts and library versions", "one machine",
     ALLS, [("seeds", "samplers' constructors")], "summation order and kernel selection belong to the TensorFlow runtime, which is not in this source; absence of entropy and races is decided by C09, C14 and C35"),
    ("C94", "Steps never overflow or produce NaN for finite inputs",
     "For finite parameters, gradients and hyperparameters all intermediate values of a step stay finite in floating point.",
     ["inputs"], "all floating point inputs", "a few inputs",
     ALLS, [("safe_divide, safe_sqrt", TU)], "magnitudes of runtime values (caller's cost and gradients) are unbounded, so no static range analysis proves it; the guards against zero denominators and negative radicands are decided by C10, C11 and C23"),
]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        for i, t, s, o, tx, w, fl, me, r in NA:
            f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": tx}, "why_tests_cant": w,
                                "anchors": {"files": fl, "mechanism": [{"name": a, "where": b} for a, b in me]}}) + "\n")
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
         "notes": "All checks read /repo's source on every run and execute none of it; see DESIGN.md. No hooks in /repo."}
    for p in P:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "./check.py %s" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "other",
            "level_note": "Static: abstract interpretation of the source of the working tree against the rules of this property. "
                          "Scope: %s. Trusted: the models of Python, numpy and TensorFlow in sa/; arithmetic over the reals; values are"
                          " equal when their value graphs agree at all sampled interpretations of their free symbols." % p["scope"]})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    design()


def explanation(i):
    tree = ast.parse(open(os.path.join(ROOT, "sa", "checks", i.lower() + ".py")).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "EXPLANATION":
            return ast.literal_eval(n.value)


def design():
    """Fills the tables of DESIGN.md (between the markers)."""
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    props = "\n".join("- **%s %s.** %s *Method:* %s. *Bounds:* %s." % (p["id"], p["title"], explanation(p["id"]), p["technique"], p["scope"])
                      for p in P)
    na = "\n".join("- **%s %s:** %s." % (n[0], n[1], n[-1]) for n in NA)
    rows = []
    try:
        caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
    except IOError:
        caught = {}
    sd = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        c = caught.get(b, [])
        rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                               " ".join(c) if c else "-"))
    seeded = "| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows)
    for name, text in (("PROPERTY_TABLE", props), ("NA_TABLE", na), ("SEEDED_TABLE", seeded)):
        a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
        s = s[:s.index(a) + len(a)] + "\n" + text + "\n" + s[s.index(b):]
    open(path, "w").write(s)


main()
