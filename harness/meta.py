"""The listed properties; `python3 harness/meta.py` writes properties.jsonl and
MANIFEST.json from them."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "bayespy/inference/vmp/nodes/"
V = "bayespy/inference/vmp/vmp.py"
U = "bayespy/utils/"

TRACE = "explicit TLA+ specification (TLC): traces of the real code checked step by step against spec/VMP.tla"
NOTE = ("Random small models and call sequences run on the real code; after every call TLC computes from the recorded "
        "state before the call the state the specification allows and compares (relative tolerance 1e-6). Bounded by the "
        "scenario families; trusts the Java evaluation of real arithmetic (spec/SelfTest.tla) and the recorder.")

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=TRACE, note=NOTE,
         level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, level=level))


prop("P01", "Updating a node gives the exact coordinate optimum and touches nothing else",
     "Updating a latent node sets its posterior approximation to the unique distribution of its family that maximises the "
     "variational lower bound with every other node's current approximation held fixed, whatever the types, plates and "
     "number of its parents and children. A bias of the natural parameters given at construction (phi_bias) is added to the "
     "prior's natural parameters. The stored moments and natural parameters are those of that distribution, and no "
     "other node's approximation changes. Freshly constructed nodes hold their prior at the parents' current moments.",
     ["inputs", "programs", "histories"],
     "every conjugate model built from the library's nodes, every state of the other nodes, every update order",
     "the tests compare single messages and moments of a few hand-worked models; the update rule is a statement about "
     "every composition of node types, plates and states",
     [N + "expfamily.py", N + "gaussian.py", N + "gamma.py", N + "wishart.py", N + "dirichlet.py", N + "categorical.py",
      N + "stochastic.py", N + "node.py"],
     [("messages from children are summed over plates and added to the prior's natural parameters",
       N + "expfamily.py: ExponentialFamily._update_distribution_and_lowerbound"),
      ("compute_message_to_parent / compute_phi_from_parents / compute_moments_and_cgf of each distribution", N),
      ("messages are summed to the parent's plates", N + "node.py: Node._message_to_parent")],
     [("u", "moments of a node", N + "expfamily.py"), ("phi", "natural parameters of a node", N + "expfamily.py")],
     ["node.update()", "VB.update(node)", "node.get_moments()", "node.get_parameters()"])

prop("P02", "The reported lower bound is the evidence lower bound",
     "The lower bound of a model is the exact value of E[log p(data, latents)] - E[log q(latents)] under the current "
     "approximation, constants included, and the contribution of each node is its own term of that sum. Only "
     "observed elements and latent elements on which observed ones depend are counted, weighted by their plates multipliers.",
     ["inputs", "programs", "histories"],
     "every model and every state reachable by observing, initialising and updating",
     "tests check the bound of a handful of nodes with fixed numbers; an error in a normaliser or a plate sum shows only for "
     "particular shapes, masks or parents",
     [N + "expfamily.py", N + "gaussian.py", N + "categorical_markov_chain.py", N + "gaussian_markov_chain.py", V],
     [("E[log p] - E[log q] from natural parameters, log normalisers and base measures",
       N + "expfamily.py: ExponentialFamily.lower_bound_contribution"),
      ("total over all stochastic nodes", V + ": VB.compute_lowerbound")],
     [("g", "log normaliser of the approximation", N + "expfamily.py"), ("f", "log base measure at the observation", N + "expfamily.py")],
     ["VB.compute_lowerbound()", "node.lower_bound_contribution()"])

prop("P03", "Coordinate updates never decrease the lower bound",
     "Whenever every latent node holds a proper distribution, updating any node leaves the lower bound of the model at least "
     "as large as it was, up to rounding, in any order of updates and with any missing data. Repeated VB.update calls "
     "therefore give a non-decreasing sequence of bounds.",
     ["schedules", "inputs", "programs"], "every model, every state, every order of updates",
     "tests run one model for one schedule and look at the end result only",
     [N + "expfamily.py", V],
     [("exact coordinate ascent", N + "expfamily.py: ExponentialFamily.update"), ("loop over the nodes", V + ": VB.update")],
     [], ["VB.compute_lowerbound()", "VB.L"])

prop("P04", "Plates mean independent replication under NumPy broadcasting",
     "A node with plates behaves exactly like the array of its elements written out: element by element it reads the parents' "
     "element selected by right-aligned broadcasting, where a parent's missing or unit plate is shared by all positions, and "
     "the message to a shared parent sums over everything that reads it. Plates left out by the user are those obtained by "
     "broadcasting the parents.",
     ["inputs", "programs"], "every combination of plate shapes of parents and children, including unit and missing axes",
     "the tests try a few plate shapes per node; broadcasting errors need particular combinations of unit, missing and full "
     "axes on several parents at once",
     [N + "node.py", N + "stochastic.py", N + "gaussian.py", N + "expfamily.py", U + "misc.py"],
     [("sum of messages to the parent's plates", N + "node.py: Node._message_to_parent"),
      ("plates of a node from its parents", N + "node.py: Node._total_plates"),
      ("sum_multiply and friends", U + "misc.py")],
     [("plates", "plates of a node", N + "node.py")], ["node.plates", "node.update()", "node.get_moments()"])

prop("P05", "Missing data are marginalised out exactly",
     "With a partial observation mask, results equal those of the model in which the unobserved elements without observed "
     "dependants are left out: they send no information to any parent and add nothing to the bound. Observed elements keep "
     "their values exactly, and latent elements of a partially observed node are still inferred.",
     ["inputs", "programs", "histories"], "every mask (including broadcast, full and empty ones) on every node of every model",
     "masks interact with plates, broadcasting and every deterministic node; tests use a few masks on a few nodes",
     [N + "stochastic.py", N + "expfamily.py", N + "deterministic.py", N + "node.py"],
     [("mask propagation to parents", N + "node.py: Node._update_mask"),
      ("masked messages and masked bound", N + "expfamily.py")],
     [("mask", "which elements take part", N + "node.py"), ("observed", "which elements are clamped", N + "stochastic.py")],
     ["node.observe(x, mask)", "node.update()", "VB.compute_lowerbound()"])

prop("P06", "Observe, unobserve and initialise have exactly their documented effect",
     "In any history of observe, unobserve, initialize_from_prior/value/parameters/random, set_parameters, update and queries, "
     "every call has its documented effect on the node it is called on: clamping gives the sufficient statistics of the "
     "value, unobserving keeps the moments until the next update, initialising replaces the distribution of the latent "
     "elements only. No call changes any other node or the arrays it is given, and queries change nothing.",
     ["histories", "inputs", "programs"], "every sequence of public calls on every node of every model",
     "tests call each method once on a fresh node; stale masks, moments or flags show only after particular sequences",
     [N + "stochastic.py", N + "expfamily.py"],
     [("observe / unobserve", N + "stochastic.py: Stochastic.observe"),
      ("initialize_from_*", N + "expfamily.py"), ("set_parameters", N + "expfamily.py")],
     [("observed", "mask of clamped elements", N + "stochastic.py"), ("u", "moments", N + "stochastic.py"),
      ("phi", "natural parameters", N + "expfamily.py")],
     ["node.observe", "node.unobserve", "node.initialize_from_*", "node.set_parameters", "node.get_moments()"])

prop("P07", "Sums, products and concatenations of Gaussians are exact",
     "Add, SumMultiply, Dot and ConcatGaussian give the exact first and second moments of the sum, the einsum-style product "
     "and the concatenation of their independent Gaussian parents (constants included), for any plates and axes labels. "
     "Updating any parent through them gives the exact optimum, with missing data, repeated plates and several children.",
     ["inputs", "programs"], "every einsum specification, number of parents, plates, masks",
     "the number of specifications and plate combinations is unbounded; tests cover a list of them with one parent's message "
     "at a time",
     [N + "add.py", N + "dot.py", N + "concat_gaussian.py", N + "deterministic.py"],
     [("SumMultiply.get_moments / _compute_message_to_parent via einsum", N + "dot.py"),
      ("Add messages", N + "add.py"), ("ConcatGaussian messages", N + "concat_gaussian.py")],
     [], ["node.get_moments()", "parent.update()"])

prop("P08", "Gaussian-gamma variables carry mean and precision jointly and exactly",
     "A Gaussian-gamma node is the joint distribution of an array and a scale of its precision. Wherever it or a Gaussian, Dot, "
     "SumMultiply, Gate or mixture built on it serves as a mean (scalar or array Gaussians, regression with unknown noise, rows "
     "of dynamics, priors of other Gaussian-gamma nodes), moments, updates and bound terms are those of that joint model.",
     ["inputs", "programs"],
     "every shape and plates of Gaussian-gamma nodes, every place that accepts one, constants and latent parents, masks",
     "four coupled moments pass through every Gaussian node and converter; tests check a few messages of a few nodes",
     [N + "gaussian.py", N + "dot.py", N + "gaussian_markov_chain.py", N + "gate.py"],
     [("GaussianGammaDistribution", N + "gaussian.py: GaussianGammaDistribution"),
      ("conversion of Gaussian to Gaussian-gamma moments", N + "gaussian.py: GaussianToGaussianGamma"),
      ("wrapper of mean and precision", N + "gaussian.py: WrapToGaussianGamma"),
      ("Gaussian-gamma products", N + "dot.py: SumMultiply")],
     [("u", "E tau x, E tau xx, E tau, E log tau", N + "gaussian.py")],
     ["GaussianGamma", "node.update()", "node.get_moments()", "VB.compute_lowerbound()"])

prop("P09", "Indexing, Take and Concatenate only rearrange plates",
     "Slicing a node with any NumPy basic index, taking along a plate axis with any index array and concatenating along a "
     "plate axis yield a node whose elements are the selected elements of the parents and nothing else. Inference through "
     "such a node is identical to attaching the children to the selected elements directly: repeated elements receive all "
     "contributions, unselected ones none, for any mask.",
     ["inputs", "programs"], "every basic index (integers, steps, negative, newaxis, ellipsis), index array and axis, with masks",
     "index expressions are unbounded; tests sample a few and mostly with positive steps and full masks",
     [N + "node.py", N + "take.py", N + "concatenate.py"],
     [("Slice node", N + "node.py: Slice"), ("put/take", N + "take.py"), ("splitting messages and masks", N + "concatenate.py")],
     [], ["node[index]", "Take", "Concatenate", "node.plates"])

prop("P10", "Mixtures and gating weight clusters by their exact responsibilities",
     "Mixture, Gate and Choose behave as the model in which a categorical variable selects the cluster of each element: "
     "assignments, cluster parameters, mixing weights and further children of a latent mixture all get their exact coordinate "
     "optimum and bound terms. This holds for every mixed distribution, every cluster plate position, nested mixtures and "
     "partially observed data.",
     ["inputs", "programs"], "every mixed distribution, cluster axis, plates of assignments and parameters, masks",
     "tests use Gaussian and few other mixtures with the default cluster axis",
     [N + "mixture.py", N + "gate.py", N + "categorical.py"],
     [("Mixture moments, messages and bound by cluster", N + "mixture.py"), ("Gate and Choose", N + "gate.py")],
     [], ["Mixture", "MultiMixture", "Gate", "Choose"])

prop("P11", "Categorical Markov chains do exact forward-backward inference",
     "A categorical Markov chain's approximation is the exact smoothing distribution of its chain given the current initial, "
     "transition and emission terms: its marginals and pairwise marginals, bound term and messages to the initial state, "
     "(possibly time-varying) transition probabilities and emissions are those obtained by enumerating all paths.",
     ["inputs", "programs"], "every number of states, length, plates, transition model, emission model and mask",
     "tests compare hand-computed cases of length two or three without masks or plates",
     [N + "categorical_markov_chain.py", U + "random.py", N + "mixture.py"],
     [("forward-backward recursion", U + "random.py: alpha_beta_recursion"),
      ("moments and messages", N + "categorical_markov_chain.py")],
     [], ["CategoricalMarkovChain.get_moments()", "update()"])

prop("P12", "Gaussian Markov chains do exact smoothing and learning",
     "A Gaussian Markov chain (plain, with inputs, with varying or with switching dynamics) holds the exact joint Gaussian "
     "smoothing distribution of its states given the current expectations of its parameters and children, including the "
     "cross-moments of consecutive states and the bound term. Updates of its initial state, dynamics, mixing weights or "
     "switches, inputs and innovation noise are exact coordinate optima.",
     ["inputs", "programs"], "every state and time dimension, plates, time-varying parameters, inputs, observation model and mask",
     "tests check a few cases against simulated numbers; shared and broadcast parameters are not covered",
     [N + "gaussian_markov_chain.py", U + "linalg.py", N + "gaussian.py"],
     [("block-banded solver", U + "linalg.py: block_banded_solve"), ("messages", N + "gaussian_markov_chain.py")],
     [], ["GaussianMarkovChain.get_moments()", "update()"])

prop("P13", "The inference loop does what its iterations and settings say",
     "One VB.update call performs exactly the requested sweeps in the given node order, stops early exactly when the relative "
     "change of the bound falls below the tolerance (never in the first iteration or right after annealing changed), and "
     "records for every iteration the bound, its terms, the time, the callback output and the autosave. Queries and refused "
     "calls leave the engine as it was.",
     ["histories", "schedules", "configurations"],
     "every sequence of engine calls and every progress of the bound (growing, equal, falling, infinite, undefined)",
     "the loop's state (iteration count, convergence flag, annealing flag, histories, files) depends on the whole history of "
     "calls; tests make one update call",
     [V],
     [("VB.update loop", V + ": VB.update"), ("end of an iteration", V + ": VB._end_iteration_step"),
      ("settings", V + ": VB.set_callback, set_autosave, set_annealing")],
     [("iter", "number of iterations done", V), ("L", "bound per iteration", V), ("l", "bound of each node per iteration", V),
      ("converged", "did the last iteration converge", V), ("annealing_changed", "skip the next checks", V),
      ("callback_output", "what the callback returned", V)],
     ["VB.update", "VB.iter", "VB.L", "VB.l", "VB.converged", "VB.callback_output", "files"],
     technique="explicit TLA+ specification (TLC): behaviours generated from spec/Engine.tla replayed on the real engine",
     note="All behaviours of two calls over a small alphabet (about 22000, exhaustively by TLC) and random behaviours of nine "
          "calls over a rich alphabet are played on the real VB object, over scripted nodes whose bound contributions TLC chooses; "
          "every observable is compared after every call. Bounded by call count and alphabet.")

prop("P14", "Saving and loading restores the inference state exactly",
     "Loading a file written by VB.save, autosave or a node restores for every loaded node the distribution, the observed "
     "elements and their values exactly, and for the engine the iteration count, bounds, convergence flag, callback output and "
     "user data. Inference continued after rebuilding the model and loading is the continuation of the saved run; nodes not "
     "loaded are untouched.",
     ["histories", "programs"],
     "every model, history before the save, set of saved and loaded nodes, and history afterwards",
     "tests save and load once and compare a few arrays; omissions matter only in the continuation (masks, normalisers, counters)",
     [V, N + "stochastic.py", N + "expfamily.py", U + "misc.py"],
     [("VB.save / VB.load / load_user_data", V), ("node state", N + "expfamily.py: ExponentialFamily._save, _load"),
      ("observed elements and masks", N + "stochastic.py: Stochastic._save, _load")],
     [("u, phi, f, g, observed", "saved node state", N + "expfamily.py"), ("L, iter, converged", "saved engine state", V)],
     ["VB.save", "VB.load", "node.save", "node.load", "VB.set_autosave", "VB.load_user_data"],
     technique="explicit TLA+ specification (TLC): recorded histories checked against spec/VMPTrace.tla, behaviours of "
               "spec/Engine.tla replayed on the real engine",
     note="Random histories with saves, loads and rebuilt models over the model families: TLC keeps the saved states and requires "
          "bitwise restoration and the specified continuation. Engine bookkeeping: simulated behaviours with files. Crashes "
          "in the middle of writing a file are not covered (HDF5 gives no atomicity).")

prop("P15", "Annealing, minibatch weights and natural gradients follow their definitions",
     "With an annealing coefficient the update maximises E[log p] minus E[log q] divided by the coefficient and the reported "
     "bound is that function; with plates multipliers each factor is weighted by its multiplier relative to the updated node. "
     "The Riemannian gradient of a node is its (annealed) coordinate optimum minus its current natural parameters, and a "
     "gradient step of size s moves all given nodes simultaneously by s times it.",
     ["inputs", "programs", "histories", "configurations"],
     "every sequence of annealing changes, updates and simultaneous gradient steps on every model and weight",
     "tests check the gradient of a few nodes at one point; weights and annealing combine with every node type",
     [N + "expfamily.py", N + "stochastic.py", N + "node.py", V],
     [("get_riemannian_gradient / set_parameters", N + "expfamily.py"), ("VB.gradient_step, VB.set_annealing", V),
      ("plates_multiplier", N + "node.py")],
     [("annealing", "annealing coefficient", N + "expfamily.py"), ("plates_multiplier", "weight", N + "node.py")],
     ["VB.gradient_step", "VB.set_annealing", "node.get_riemannian_gradient()", "VB.compute_lowerbound()"])

T_ = "bayespy/inference/vmp/transformations.py"
prop("P16", "Rotations and translations transform the approximation exactly",
     "Rotating or translating a Gaussian-type node or chain gives the exact distribution of the transformed variable (moments, "
     "natural parameters, bound). A rotation optimizer applies one matrix to one block and its inverse transpose to the other, "
     "so products keep their moments; the costs and gradients of the blocks equal the true change of the bound, so the bound "
     "never decreases, and no other node changes.",
     ["inputs", "programs", "histories"],
     "every matrix, axis, plates, prior of the rotated nodes, kind of dynamics, state of the approximation",
     "rotator costs are long hand-derived formulas summed over plates and axes; tests try a few shapes per class",
     [T_, N + "gaussian.py", N + "gaussian_markov_chain.py"],
     [("cost, gradient and rotation of an array and its precision", T_ + ": RotateGaussianARD"),
      ("chains with their dynamics", T_ + ": RotateGaussianMarkovChain"),
      ("joint optimisation", T_ + ": RotationOptimizer.rotate"),
      ("rotate / rotate_plates / rotate_matrix / translate", N + "gaussian.py")],
     [("u, phi, g", "moments, natural parameters, normaliser", N + "gaussian.py")],
     ["RotationOptimizer.rotate()", "rotator.bound()", "node.rotate()", "node.translate()", "node.rotate_plates()"])

prop("P17", "Gradient-based optimisation climbs the bound along its gradients",
     "The Euclidean gradient of a node is the derivative of the lower bound with respect to its natural parameters. "
     "VB.optimize moves the optimised nodes together along the natural or Euclidean gradient, or the Fletcher-Reeves conjugate "
     "direction, while collapsed nodes follow as coordinate optima; it never lowers the bound and touches nothing else. Pattern "
     "search moves along the line through its last two updates and never ends below the better of its starting points. "
     "Improper distributions are never accepted.",
     ["inputs", "programs", "histories"],
     "every model, subset and order of optimised and collapsed nodes, method, metric, number of iterations, and state",
     "tests run the optimiser on two models and look at the final bound; directions, conjugacy, step control and restoring of "
     "collapsed nodes after failed steps depend on the state and the node types",
     [V, N + "expfamily.py", N + "gaussian.py", N + "gamma.py", N + "dirichlet.py", N + "multinomial.py"],
     [("VB.optimize, VB.pattern_search, VB.get_gradients", V),
      ("compute_gradient of each distribution", N + "gaussian.py, gamma.py, dirichlet.py, multinomial.py, mixture.py"),
      ("get_riemannian_gradient, set_parameters", N + "expfamily.py")],
     [("phi", "natural parameters", N + "expfamily.py"), ("L, iter", "bounds of the iterations", V)],
     ["VB.optimize", "VB.pattern_search", "VB.get_gradients", "VB.compute_lowerbound()", "callback"],
     note="Random models and histories; every iteration of the optimiser (seen through its callback) is one step of "
          "spec/Optim.tla, where Euclidean gradients are differential quotients of the specified moments (relative 1e-5). "
          "Euclidean gradients of Gaussian arrays of more than one axis, Wishart and Gaussian-gamma nodes are not implemented "
          "in the library. Pattern search is checked with at most one collapsed node.")


prop("P18", "Draws, densities, marginals, predictions and printed parameters are those of q",
     "random() of any node draws from its current approximation (draws of deterministic nodes are the function of draws of their "
     "parents) with the node's plates and shape; pdf and logpdf, the location, mean and variance and marginal densities of "
     "Gaussian-gamma nodes, the predictive density of mixtures and the parameters a node prints are those of that same "
     "distribution. Asking changes nothing.",
     ["inputs", "histories"], "every distribution, its plates and shape, every state of the approximation and every argument",
     "tests look at the shape of draws, one or two densities and no printed text; a sampler with the wrong factor, transpose or axis "
     "passes them all",
     [N + "expfamily.py", N + "gaussian.py", N + "gamma.py", N + "mixture.py", N + "categorical_markov_chain.py", U + "random.py"],
     [("random of each distribution from its natural parameters", N),
      ("integrated_logpdf_from_parents", N + "mixture.py"),
      ("get_marginal_logpdf, get_gaussian_location, get_gaussian_mean_and_variance", N + "gaussian.py: GaussianGamma"),
      ("__str__ of each node", N)],
     [("phi", "natural parameters of a node", N + "expfamily.py")],
     ["node.random()", "node.pdf", "node.logpdf", "str(node)", "node.show()", "GaussianGamma.get_marginal_logpdf",
      "Mixture.integrated_logpdf_from_parents"],
     note="Densities, parameters and marginals are compared with module Query (relative tolerance 1e-5); draws by the mean of 1500 "
          "of them against the exact moments within seven standard errors, with fixed seeds.")

prop("P20", "Array utilities compute their definitions for every shape",
     "The utilities for linear algebra, axes, shapes, broadcasting and random draws (bayespy.utils.linalg, misc, random) return "
     "what their definitions say element by element, for every combination of plates, unit and missing axes, numbers of inner "
     "axes and keyword arguments: sums of products, diagonal arrays, Cholesky and banded solvers, stacking, forward-backward "
     "recursion, densities. Draws lie in their support. Bad shapes are refused and arguments never change.",
     ["inputs"], "all shapes and broadcasting combinations, axes, numbers of inner axes and values",
     "tests call each utility with a few shapes; unit and missing axes on different arguments at once select different branches",
     [U + "linalg.py", U + "misc.py", U + "random.py"],
     [("Cholesky, triangular and banded solvers with broadcasting", U + "linalg.py"),
      ("sum_multiply, sum_multiply_to_plates, make_diag, put_simple, shape functions", U + "misc.py"),
      ("alpha_beta_recursion, densities, draws", U + "random.py")],
     [], ["return values"],
     technique="explicit TLA+ specification (TLC): recorded calls checked against the definitions in spec/Util.tla",
     note="Random calls of some 70 utilities; TLC evaluates the definition of each and compares shapes and values (relative "
          "1e-7), or checks the defining relation (factorisations, inverse functions, draws). Arrays of at most 400 elements.")


prop("P21", "Point estimates of shapes and concentrations maximise the bound",
     "Updating a GammaShape or Concentration node sets it to the value that maximises the variational lower bound (with the node's "
     "regularisation added) given every other node's approximation, for each of its elements on its own, and its moments are the "
     "sufficient statistics of that value. Its contribution to the bound is the regularisation term summed over its plates, and "
     "models with such nodes can be updated, evaluated, saved and loaded like any other.",
     ["inputs", "histories"], "all regularisations, plates, numbers and kinds of children and states of them",
     "the tests look at one estimate per class from many samples with wide tolerances",
     [N + "gamma.py", N + "dirichlet.py", N + "gaussian.py", N + "beta.py"],
     [("update by inverting the digamma function", N + "gamma.py: GammaShape"),
      ("fixed-point iteration", N + "dirichlet.py: Concentration"),
      ("messages to shape and concentration parents", N)],
     [("u", "value and its statistics", N + "gamma.py, " + N + "dirichlet.py")],
     ["node.update()", "node.get_moments()", "VB.compute_lowerbound()", "node.initialize_from_value"],
     note="Random models with observed or latent children. The estimate is taken as recorded and the derivative of the specified "
          "bound tested to vanish there (relative 1e-6; 2e-5 for the concentration's iteration).")

GRAPH = "explicit TLA+ specification (TLC): behaviours generated from spec/Graph.tla replayed on the real node classes"
GNOTE = ("TLC generates random histories of 18 calls (valid and invalid) over up to ten nodes of 22 classes; every outcome, plates, "
         "shapes, masks and reachable stochastic nodes are compared after every call. Outcomes that depend on implicit conversions of "
         "constants are left open (operator Open).")

prop("P19", "Invalid calls are refused and leave everything as it was",
     "Constructor calls whose parents have the wrong kind, mismatching shapes or plates, dependent parents or constants outside of "
     "their domain, observations of a wrong shape or outside of the support, masks and initial values of a wrong shape, and "
     "engines with duplicate names raise an error. A refused call leaves every existing node exactly as it was: moments, "
     "parameters, masks, children and later results. Valid calls are accepted.",
     ["inputs", "programs", "histories"],
     "every call with any arguments in any state of the graph",
     "tests try a few wrong arguments per class on fresh nodes and look at the exception only, not at what the failed call left behind",
     [N + "node.py", N + "stochastic.py", N + "expfamily.py", N + "gaussian.py", N + "mixture.py", N + "deterministic.py", V],
     [("validation of parents, shapes and plates in the constructors", N), ("validation of observations and masks", N + "expfamily.py"),
      ("duplicate names", V + ": VB.__init__")],
     [("children", "who reads a node", N + "node.py")],
     ["constructors", "node.observe", "node.initialize_from_value", "VB()", "node.get_moments()"], technique=GRAPH, note=GNOTE)

prop("P23", "The graph's plates, shapes, masks and links follow from its construction",
     "Plates and moment shapes of every node are the broadcast of its arguments (or the explicit plates); which elements take part "
     "in inference and which stochastic nodes a node's term reaches follow from the links and the observations alone. "
     "Deleting a node removes it and its descendants only. Whatever the history of constructing, observing, unobserving, updating, "
     "deleting and failed calls, inference results equal those of the same graph built directly.",
     ["histories", "programs", "inputs"],
     "every history of constructing, observing, deleting and refused calls over all node classes",
     "tests build each model once; stale children, masks or plates appear only after particular histories",
     [N + "node.py", N + "stochastic.py", N + "deterministic.py", N + "expfamily.py", N + "take.py", N + "concatenate.py", N + "gate.py",
      N + "mixture.py", V],
     [("plates from the parents", N + "node.py: Node._total_plates"), ("children and deletion", N + "node.py: Node._add_child, delete"),
      ("mask propagation", N + "node.py: Node._update_mask")],
     [("children", "who reads a node", N + "node.py"), ("mask", "which elements take part", N + "node.py"),
      ("plates", "plates of a node", N + "node.py")],
     ["node.plates", "node.dims", "node.get_shape", "node.get_mask", "node.get_pdf_nodes", "node.delete", "VB[...]", "node.get_moments()"],
     technique=GRAPH, note=GNOTE)


NOT_APPLICABLE = []


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             observe_at=list(p["observe"]), hook_needed=None))) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh",
               hooks=dict(guard="BAYESPY_VERIF", enable="no hooks: every observation is made through the public API"),
               checks=[dict(property=p["id"], quick_cmd="./run.sh %s --tier quick" % p["id"],
                            thorough_cmd="./run.sh %s --tier thorough" % p["id"], technique=p["technique"],
                            level=p["level"], level_note=p["note"]) for p in P],
               not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE])
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
