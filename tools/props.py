"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

TECH = "gated value-flow abstract interpretation of the source"
TECHND = "abstract interpretation of the source in an array domain whose entries are polynomials in normal form"

# id: (title, statement, over, quantifier text, why tests cannot, files, mechanism, note)
P = {}


def prop(id, title, statement, over, qtext, why, files, mech, note, technique=None):
    P[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why,
                 files=files, mech=mech, note=note, technique=technique or TECH)


M = "parametricmatrixmodels/"

prop("P01", "Module configuration survives save, copy and hyperparameter transfer",
     "For every module class, serializing a module and deserializing it into a fresh instance of the same class, or copying its hyperparameters onto a fresh instance, reproduces every configuration value that the module's compilation, shape inference, readiness or evaluation depends on, whether that value is unset or set. "
     "The same holds for the parameters and the state carried by the serialized form, and an option documented as settable after construction acts as if given to the constructor. "
     "A module restored this way, before its first compilation as well as after it, is ready exactly when the original was, declares the same output shapes and computes the same outputs for the same parameters.",
     ["inputs", "configurations"], "every module class x every configuration, parameter and state value",
     "The suite constructs a handful of modules with a handful of options; a hyperparameter missing from one export list only shows for the class and option it belongs to, after a round trip that no test does.",
     [M + "modules"], [("get_hyperparameters/set_hyperparameters and serialize/deserialize of each class", M + "modules/*.py"), ("base (de)serialization", M + "modules/basemodule.py")],
     "Decided for every concrete module class found in the tree, over symbolic attribute values; trusts the engine's models of numpy/jax conversions as value preserving.")

prop("P02", "Parameters, state and RNG that are set are what is read back",
     "Setting a module's parameters or state and reading them back yields exactly what was set (values of the structure and shapes it reports itself are accepted), and setting them on a model hands each module exactly its own sub-tree once, in module order, while reading them collects each module's value at its own position. "
     "Setting a model's RNG to a key keeps that key, and setting it to an integer seed gives the key of that seed.",
     ["inputs", "configurations"], "every module and model class, list/tuple/dict module containers, every parameter/state tree",
     "A swapped, dropped or doubly applied sub-tree is invisible when the tested modules have no parameters or equal shapes.",
     [M + "modules", M + "model.py"], [("get/set_params, get/set_state of modules", M + "modules/*.py"), ("Model.get/set_params, get/set_state, set_rng", M + "model.py")],
     "Model level is decided for containers of up to three opaque modules; module level for every concrete class with symbolic values.")

prop("P03", "A saved model is restored complete by every persistence route",
     "For every model class, saving and loading a model (compressed or not, by constructor-from-file or load, or via the serialized dictionary, its hyperparameters or a deep copy) restores everything its compilation, shape inference, readiness and evaluation depend on: modules with their configuration, parameters and state in order, structure settings, shapes, RNG and optimizer moments, whether or not it was compiled, so that the restored model computes the same outputs. "
     "With strict version checking a load is refused when any level of the saved data (model, module) carries another package version, and with non-strict checking a version difference alone never refuses a load.",
     ["inputs", "configurations", "histories"], "every model class x module contents x persistence route x version field",
     "Tests save and load one or two small models and compare predictions; lost optimizer moments, RNG or options that are unused in that model pass unnoticed.",
     [M + "model.py", M + "sequentialmodel.py", M + "nonsequentialmodel.py", M + "modules/basemodule.py"], [("serialize/deserialize/save/load/from_file/copy", M + "model.py"), ("package-version guards", M + "model.py, " + M + "modules/basemodule.py")],
     "Composition save->load evaluated on symbolic models with three representative modules; np.savez/np.load are modelled as a faithful dictionary store of array-wrapped values.")

prop("P04", "A conformalized model is restored complete by every persistence route",
     "Saving and restoring a conformalized model, by file or by serialized dictionary, restores the wrapped model, the calibration scores, the cached quantiles, the sensitivity data, the normalisations and the encoder used for categorical inputs, and rebuilds the neighbour index from the restored data. "
     "The strict package-version setting is enforced for the conformal wrapper and for the wrapped model.",
     ["inputs", "configurations"], "every calibrated or uncalibrated conformalized model x persistence route",
     "A lost calibration field only shows when intervals are requested after a reload with exactly the option that needs it; no test does that for all options.",
     [M + "conformal"], [("ConformalizedModel.serialize/deserialize/save/from_file", M + "conformal")],
     "Symbolic composition; the k-d tree is modelled as a function of the arrays it is built from.")

prop("P05", "Scalers invert exactly and fit the documented statistics",
     "For every data scaler, inverse-transforming transformed data returns the data for every fitted configuration, the fitted statistics are the documented per-feature reductions over samples, and uncertainties are rescaled by the scale alone without the offset. "
     "Using an unfitted scaler raises, refitting depends only on the new data, and every persistence route restores the fitted scaler.",
     ["inputs", "configurations"], "every scaler class x data x option",
     "Floating point tests sample a few arrays; a sign or offset error in one option or one tree branch is only visible for that option.",
     [M + "preprocessing"], [("fit/transform/inverse_transform", M + "preprocessing")],
     "Exactness is over the reals (rational normal form): rounding is not modelled; OneHot inversion is decided at the level of its lookup structure.")

prop("P06", "Structural edits do what they say and invalidate prepared state",
     "Appending, prepending, inserting, popping, replacing, or otherwise editing a model's modules leaves exactly the edited module sequence, for list, tuple and named containers, and leaves every other model and the container the model was built from as they were; the sum of a model and a module is a new model. "
     "After any such edit, or a reset, the model is not ready, and no evaluation or gradient afterwards, nor after loading or taking over another model's hyperparameters, uses a shape, execution order or prepared function computed for the previous structure.",
     ["histories", "configurations"], "every edit operation x container kind x position x earlier evaluation history",
     "Stale caches only bite in a particular order of operations (evaluate, edit, recompile, evaluate) for a particular edit; tests compile once.",
     [M + "model.py", M + "sequentialmodel.py", M + "nonsequentialmodel.py"], [("append/prepend/insert/pop/... and reset", M + "model.py"), ("cached callables", M + "model.py")],
     "All attributes of the edited model are opaque 'stale' values; freshness is decided by reachability in the value graph of each entry point.")

prop("P07", "Training changes exactly the trainable parameters, by their own gradient",
     "After training, for any number of epochs, batches and gradient values, the parameters of a module marked not trainable, before or after it was compiled, are exactly its parameters before training, at every nesting level of a composite model and with resumed optimizer state. "
     "Every other parameter leaf is updated only by the gradient component of its own position, by every gradient of the training loss, and comes back at its own position in the model's parameter tree.",
     ["inputs", "histories", "configurations"], "every assignment of trainable flags over list, named and nested containers x real/complex leaves x epochs x batches",
     "Freezing only matters for particular flag patterns, nestings and leaf types; mixing up two leaves of equal shape only degrades the fit.",
     [M + "training.py", M + "model.py", M + "modules/basemodule.py"], [("Model.train / train", M + "model.py, " + M + "training.py"), ("Adam updates per leaf", M + "training.py"), ("trainable flags", M + "modules/basemodule.py, " + M + "model.py")],
     "Decided on the extracted loop transfer functions for all iteration counts (induction over the loop slots) for 12 flag/nesting patterns; the user loss is an opaque function.")

prop("P10", "Each epoch and each validation uses every sample exactly once, aligned",
     "In every epoch the batches given to the training loss contain every training sample exactly once, including the last partial batch, with inputs, targets and uncertainties of the same samples side by side, freshly shuffled, and predictions computed in training mode. "
     "Every validation covers every validation sample (the training data when none is given) exactly once, aligned and in inference mode, and the validation loss of an epoch is the mean of its batch losses. "
     "Inputs, targets or uncertainties with different numbers of samples are refused.",
     ["inputs", "configurations", "histories"], "every sample count x batch size x validation set x (un)supervised signature x data tree",
     "A dropped remainder, a misaligned shuffle or a wrong divisor only shows for particular sample/batch count combinations and merely degrades the fit.",
     [M + "training.py", M + "tree_util.py"], [("epoch and batch loops, shuffling, validation", M + "training.py"), ("random_permute_leaves / batch_leaves", M + "tree_util.py")],
     "Coverage and means are decided by evaluating the extracted index expressions of the batch loops for representative sample/batch counts (divisible, remainder, larger than data, batch of one); alignment is decided symbolically for every count.")

prop("P09", "Models refuse to run when not ready or given the wrong input shape",
     "A model is ready exactly when it has modules, all modules it executes are ready, and its input and output shapes are known. "
     "Evaluating or differentiating an unready model raises before anything is evaluated, and evaluating a ready model raises exactly when the per-sample input shape differs from the compiled one, for single arrays and for trees of arrays.",
     ["inputs", "configurations"], "every model class x entry point x readiness combination x input structure and shape",
     "A guard dropped from one entry point or one tree branch leaves all valid uses working.",
     [M + "model.py", M + "model_util.py", M + "nonsequentialmodel.py"], [("is_ready / _verify_input", M + "model.py")],
     "Shapes are enumerated structurally (rank, each dimension, tree kinds); readiness of modules is symbolic.")

prop("P11", "Training stops when documented and keeps the best epoch",
     "For every history of validation losses, training runs until the epoch limit, the target loss, or the exhausted early-stopping patience (with its minimum improvement) ends it, and the parameters, model state, RNG and optimizer state stored in the model are those of the epoch with the lowest validation loss, the initial model included. "
     "Between training steps the model state and RNG are threaded on, validation does not disturb them, losses receive the current epoch number, and a user callback sees and may replace the parameters of each epoch.",
     ["histories", "inputs", "configurations"], "every sequence of validation losses x epochs, target, patience, minimum improvement",
     "The best epoch differs from the last one, and stopping early differs from not stopping, only for particular loss histories; a test trains on one.",
     [M + "training.py", M + "model.py"], [("epoch loop: stopping condition, patience, best-state selection", M + "training.py"), ("storing the result", M + "model.py")],
     "Losses enter the loop only through comparisons; the extracted transfer functions are tabulated for 22 histories realising the relevant orderings and compared with the documented rule.")

prop("P24", "Each training step applies Adam to real and complex parameters",
     "One training step replaces a parameter's first and second moments by their exponential averages with the clipped gradient and its squared modulus, and moves the parameter by the learning rate times the bias-corrected first moment over the root of the bias-corrected second moment plus eps; for complex parameters the gradient is conjugated and clipped per component. "
     "A learning-rate schedule is evaluated at the stored step counter, a fresh training starts from zero moments and the model's parameters, and the configured hyperparameters are the ones used.",
     ["inputs", "configurations"], "every parameter, gradient and moment value, every hyperparameter value, real and complex leaves",
     "A swapped decay rate, wrong bias correction or missing conjugation still reduces the loss on toy problems.",
     [M + "training.py", M + "model.py"], [("adam / complex_adam", M + "training.py"), ("option routing", M + "model.py")],
     "Exact over the field operations (rational normal form with i*i = -1), rounding and casts not modelled; how often the step counter advances is not pinned.")

prop("P22", "Limiting the batch size does not change what is evaluated",
     "Evaluating with a maximum batch size gives, for every number of samples and every limit, row i of every output leaf from sample i: each sample is evaluated exactly once, with all input leaves of an evaluation taken from the same samples, no evaluation gets more samples than the limit, and the last partial batch is included. "
     "Every evaluation gets the same parameters, mode flag and RNG, the model state is threaded from batch to batch and the last one is returned, with or without recompilation avoidance and for inputs of any rank.",
     ["inputs", "configurations"], "every sample count x limit x input/output tree x recompilation option",
     "Reordered, dropped or repeated rows appear only for particular combinations of sample count, limit and option.",
     [M + "model_util.py", M + "tree_util.py"], [("autobatch", M + "model_util.py"), ("pytree_split, batch_leaves, concatenate", M + "tree_util.py")],
     "Row provenance is computed from the extracted slicing/stacking/concatenation expressions for 11 sample/limit combinations (divisible, remainders 1..3, at most one batch, no limit) x 4 tree shapes; the evaluation function is opaque.")

prop("P21", "Composite models evaluate their modules as composed",
     "A SequentialModel feeds each module the output of the one before it, and a NonSequentialModel feeds each module exactly the values its connections route to it (in any listing order, with nested, implicit or partial paths, any separator, and any non-reserved module names), returning the output routed to the model output and refusing connections that form no acyclic graph from input to output. "
     "Each module is compiled once for the shape of what it will be fed, and is evaluated once with the parameters and state at its own position, the model's mode flag and a random key of its own derived from the model's; its new state is returned at its own position. "
     "Evaluating does not modify the caller's parameters, state or data containers.",
     ["inputs", "configurations"], "every module and its parameter/state tree (opaque), container layouts and connection graphs of the listed families, every data value",
     "The routing code is string and graph manipulation over nested containers; tests use a few small graphs with stateless modules, where swapped state, shared keys or a wrong implicit index do not show.",
     [M + "sequentialmodel.py", M + "nonsequentialmodel.py", M + "graph_util.py", M + "tree_util.py"], [("SequentialModel._get_callable, compile", M + "sequentialmodel.py"), ("NonSequentialModel compile, _get_shape_progression, _get_callable", M + "nonsequentialmodel.py"), ("connection resolution", M + "graph_util.py"), ("string paths", M + "tree_util.py")],
     "Decided for opaque modules with arbitrary parameters, state and outputs over 5 container layouts and 28 connection graphs (plus 9 that must be rejected); connections that would need a generated UUID key are not covered.")

prop("P16", "Built-in losses compute their documented formulas",
     "Each loss selected by name is the mean over all elements of all leaves of the target of its formula: |d|^2 (mse), |d| (mae), delta^2 (sqrt(1 + |d/delta|^2) - 1) (pseudo_huber, delta given after a colon, default 1), |d / (y + 1e-4)| (mre), |d / (2 (y + p) + 1e-4)| (mrd), with d = p - y the prediction error; the _unc forms divide the error by the target's uncertainty and the _unsupervised forms use the input as target. "
     "It evaluates the model once on the given inputs, parameters, mode flag, state and RNG, returns the model's new state, works for complex values and for trees whose leaves differ in shape, and an unknown name raises an error.",
     ["inputs", "configurations"], "every registered loss x target tree x real or complex values",
     "A wrong weighting of leaves, a dropped modulus or a lost state is invisible for one real array, which is what the tests use.",
     [M + "training.py", M + "tree_util.py"], [("make_loss_fn", M + "training.py"), ("tree arithmetic", M + "tree_util.py")],
     "Formulas are compared in a normal form over abs, sqrt and sum (exact arithmetic, rounding not modelled); uncertainties are taken to be positive.")

prop("P15", "Conformal scores, quantiles and intervals fit together",
     "Calibration stores, for every calibration sample and output, |target - (prediction + bias)| / u, where u is the uncertainty heuristic of that sample and the bias is zero, the median residual, or the median residual of the sample's stratum; the quantile for level alpha is the ceil((n+1)(1-alpha))/n quantile of the current calibration's scores, whatever was asked before and in the order asked. "
     "A prediction is the model output plus the same bias (none for an unseen stratum) and its interval is that value -/+ quantile * u of the same sample, computed with the sample's own input uncertainties. "
     "The heuristic u is the sum of the enabled sensitivities (squared gradients scaled by |parameter|, by the training inter-quartile range and by the input uncertainty, averaged over the enabled elements, plus the distance), each divided by its median absolute deviation over the calibration set (a wider range where that vanishes), with one value per output element for every output shape; alpha outside (0, 1) and uncalibrated use raise.",
     ["inputs", "configurations", "histories"], "every calibration option x output tree x sequence of calibrations and requested levels",
     "A wrong rank, a stale cached quantile, a bias used in one place only or a mis-broadcast sensitivity still gives plausible intervals; the repository has no test of conformal calibration options.",
     [M + "conformal/conformalizedmodel.py"], [("calibrate/get_qhat/__call__", M + "conformal/conformalizedmodel.py"), ("sensitivities", M + "conformal/conformalizedmodel.py")],
     "The wrapped model, its gradients and the nearest-neighbour distance are opaque; quantile levels above one are not pinned; coverage itself is N01.")

prop("P12", "Prediction and gradients use the current model and change nothing",
     "Calling, predicting with, or differentiating a model applies its evaluation function in inference mode to the model's current parameters, state and RNG and to the given input, with gradients taken with respect to exactly the requested argument. "
     "Unless a state update is explicitly requested these operations leave the model's parameters, state, RNG and optimizer state untouched, and batching options given to a later call are honoured by that call.",
     ["inputs", "histories", "configurations"], "every model class x entry point x options x call history",
     "Which parameters, key or mode flag reaches the evaluation is invisible for stateless deterministic test models.",
     [M + "model.py", M + "model_util.py"], [("__call__/predict/grad_input/grad_params", M + "model.py")],
     "jax.jacobian/vmap are trusted; their argument routing is what is decided.")


prop("P17", "Elementary modules compute their documented functions",
     "Bias, Constant, Einsum, MatMul, PReLU, Flatten, Reshape, ConcatenateLeaves, the tree modules and the activation modules return, for every option and container layout, exactly the documented function of their parameters and input, sample by sample, with the documented container structure and unchanged state. "
     "Trainable parameters stay differentiable, every activation module applies the jax function it is named after with its own arguments, a function module written by a user (FuncBase) applies exactly its own f and declares the shapes f gives, and every exported name exists.",
     ["inputs", "configurations"], "every module x option x input layout x real or complex entries",
     "A transposed contraction, a permuted leaf order or a dropped conjugate needs asymmetric shapes, several leaves or complex values, which the tests do not combine.",
     [M + "modules"], [("module forward functions", M + "modules")],
     "Decided for arrays of unknown entries of fixed small shapes (exact arithmetic, rounding not modelled); transcendental activations are compared as applications of the named jax function, not by their numbers.",
     TECHND)

prop("P18", "Affine matrix modules build the documented matrix",
     "AffineHermitianMatrix and LowRankAffineHermitianMatrix return for every sample x the matrix M0 + x1 M1 + ... + xp Mp plus smoothing times i sum_{i>j} [Mi, Mj], with Mi the Hermitian part of the i-th parameter (or sum_k l_k u_k u_k^dagger), and AffineTensor the same affine combination of its tensors; without bias term M0 is left out. "
     "For real features the matrices are Hermitian for every parameter value, and no parameter is cut off from differentiation.",
     ["inputs", "configurations"], "every option x number of features x parameter and feature values",
     "A wrong conjugate, a lost bias term or a commutator with the wrong sign still gives plausible spectra.",
     [M + "modules/affinehermitianmatrix.py", M + "modules/lowrankaffinehermitianmatrix.py", M + "modules/affinetensor.py", M + "modules/_smoothing.py"],
     [("forward functions", M + "modules/affinehermitianmatrix.py"), ("commutator sum", M + "modules/_smoothing.py")],
     "Polynomial identity in all parameter entries and features for matrices up to 3 x 3 and up to 3 features.",
     TECHND)

prop("P20", "Eigenvalue modules return the documented part of the spectrum",
     "Eigenvalues, Eigenvectors and Eigensystem return, for every Hermitian matrix and every which option (smallest, largest, exterior, interior; algebraic or by magnitude, in upper or lower case), exactly the num_eig eigenvalues that option names, in ascending order of the value or magnitude, and the eigenvectors as columns in the same order. "
     "Each matrix of the batch and of the container is treated on its own; unknown options, non-positive numbers and non-square or too small matrices are refused.",
     ["inputs", "configurations"], "every option x number of eigenvalues x order type of the spectrum",
     "Whether magnitude or algebraic order is used shows only for spectra of mixed sign with particular interleavings of magnitudes.",
     [M + "eigen_util.py", M + "modules/eigenvalues.py", M + "modules/eigenvectors.py", M + "modules/eigensystem.py"],
     [("eigenpair selection", M + "eigen_util.py")],
     "All order types of spectra of matrices up to 6 x 6; how an odd exterior count is shared between the two ends is not pinned; the eigen-decomposition itself is jax's (N03).",
     TECHND)

prop("P23", "Observable modules and PMMs compute the documented sums",
     "ExpectationValueSum returns sum_{l,i} v_i^dagger D_kl v_i and TransitionAmplitudeSum sum_{l,i,j} |v_i^dagger D_kl v_j|^2 for every output k, with D_kl the Hermitian part of the parameters, minus half the sum of squared operator norms when centered. "
     "AffineEigenvaluePMM and AffineObservablePMM compose the affine matrix, the selected eigenpairs, the observable sum and the bias as documented, with every parameter differentiable.",
     ["inputs", "configurations"], "every option x parameters x state vectors",
     "Dropped conjugates, a Frobenius instead of an operator norm or a missing cross term are invisible for one real vector or one observable.",
     [M + "modules/expectationvaluesum.py", M + "modules/transitionamplitudesum.py", M + "modules/affineobservablepmm.py", M + "modules/affineeigenvaluepmm.py"],
     [("forward functions", M + "modules")],
     "Polynomial identity in all entries for small sizes; operator norms and eigenpairs are opaque functions of the matrix.",
     TECHND)

prop("P14", "Declared output shapes are the shapes of the outputs",
     "For every module, option and admissible input shape (single arrays and containers), the declared output shape of the compiled module is, with the same container structure, the shape its evaluation produces without the batch dimension, and every output leaf has the batch size of the input as leading dimension. "
     "The declared output shape of a sequential or non-sequential model is the shape its evaluation produces.",
     ["inputs", "configurations"], "every module x option x input shape x batch size",
     "A wrong declared shape only matters when the module is followed by another one that is compiled for it.",
     [M + "modules", M + "sequentialmodel.py", M + "nonsequentialmodel.py"], [("get_output_shape", M + "modules")],
     "Decided over a table of about 430 configurations with batches of one to three samples; GLU is a recorded finding.",
     TECHND)

prop("P13", "Random initialisation is reproducible, independent and scaled",
     "Compiling a module or model draws its parameters only from the key given to compile, so the same key gives the same parameters, and no key is used for two draws within a module or in two modules of a model. "
     "Every entry of a randomly initialised parameter is random and independent of all others (except for the conjugate entry of Hermitian parameters, which are Hermitian), is proportional to init_magnitude, and is real or complex as requested.",
     ["inputs", "configurations"], "every module with random parameters x option x shape x key",
     "Correlated or unscaled initial values still train, and the tests never look at the joint distribution.",
     [M + "modules", M + "sequentialmodel.py", M + "nonsequentialmodel.py"], [("compile", M + "modules")],
     "jax.random is trusted: distinct keys (by derivation) are taken to give independent draws; the distribution family is not pinned.",
     TECHND)

prop("P19", "Parameters given by the user are the ones used",
     "Parameter values given to a module's or PMM's constructor are, entry by entry, its parameters after compilation with any key, and a value given to a module that is not trainable enters its output in full. "
     "Parameters set on a module, before its first compilation or later, are its parameters after compiling it for a matching input shape, and given values whose shape contradicts the options or the input shape are refused.",
     ["inputs", "configurations", "histories"], "every module taking parameter values x option x compile history",
     "A re-drawn or partly used parameter is a valid parameter of the right shape.",
     [M + "modules"], [("__init__/compile/set_params", M + "modules")],
     "Hermitian modules get Hermitian values (others are refused by the module itself).",
     TECHND)

prop("P25", "A seed or key decides every random choice",
     "When a seed or key is given, constructing, compiling or training a model draws from nothing else (no global generator, clock, address or hash), so equal arguments give equal results, and an integer seed s, zero included, acts exactly as the key of s. "
     "Without a seed fresh randomness decides. "
     "Training a model that is not ready first compiles it once, from the initialisation seed and for the feature shapes of the data, and training a ready model never initialises it again.",
     ["inputs", "configurations"], "every model class x constructor, compile and train x integer seed (including 0), key or none; every module class x option",
     "A seed that is ignored, or a second source of randomness, still gives valid random values; only comparing two processes for the very option shows it.",
     [M + "model.py", M + "sequentialmodel.py", M + "nonsequentialmodel.py", M + "training.py", M + "modules"], [("rng handling of __init__, compile, train", M + "model.py, " + M + "sequentialmodel.py, " + M + "nonsequentialmodel.py, " + M + "training.py")],
     "jax.random is trusted to be a function of its key; XLA's own run-to-run determinism is not in scope.")

prop("P26", "Changing the precision keeps values and kinds",
     "Setting the precision of a module or model, by any of the documented names and by set_precision or astype, converts every parameter and state leaf to the requested width and keeps its value, its position and its real or complex kind, in every module of the model, nested ones included. "
     "An unknown precision, 64 bits without 64-bit support, and an object that is not ready are refused. "
     "Input data is cast to the type asked for, and a cast that would drop imaginary parts is refused.",
     ["inputs", "configurations"], "every module class x option x model structure x name of a precision x parameter and state values",
     "A wrong width only degrades accuracy and a dropped imaginary part only shows for complex parameters; tests convert one or two real models.",
     [M + "modules/basemodule.py", M + "model.py", M + "tree_util.py"], [("set_precision/astype", M + "modules/basemodule.py, " + M + "model.py"), ("safecast", M + "tree_util.py")],
     "Values are compared exactly: rounding by the conversion itself is not modelled.",
     TECHND)

prop("P08", "Readiness and parameter counts reflect the parameters",
     "A module or model whose parameters are still to be drawn is not ready before compilation (a module then reports no parameter count) and is ready after it, for every option and input shape. "
     "Its reported number of trainable parameters is the number of independent real numbers among its parameters: two per complex entry, n^2 per Hermitian n x n matrix, zero without parameters, and the sum over its modules for a model.",
     ["inputs", "configurations"], "every module x option x input shape",
     "Counts are printed, not used, so a wrong count for complex or Hermitian parameters stays unnoticed.",
     [M + "modules/basemodule.py", M + "model.py", M + "modules"], [("is_ready/get_num_trainable_floats", M + "modules")],
     "Frozen modules keep reporting their parameters (the summary marks them as frozen).",
     TECHND)


NAP = {}


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NAP[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why,
                   files=files, mech=mech, reason=reason)


na("N01", "Conformal intervals reach their nominal coverage",
   "For exchangeable calibration and test data, the intervals returned at level 1 - alpha contain the true value with probability at least 1 - alpha.",
   ["inputs"], "every exchangeable data distribution, every alpha",
   "Coverage is a probability over data sets; a test samples one.",
   [M + "conformal"], [("split-conformal quantile", M + "conformal/conformalizedmodel.py")],
   "A probabilistic statement about data distributions; no static argument over this source bounds it (the value flow of scores, quantile level and interval is what P15 decides).")
na("N02", "Batched evaluation is numerically equal to unbatched evaluation",
   "Evaluating a model on a data set in batches gives, sample by sample, the same numbers as evaluating all samples at once.",
   ["inputs", "configurations"], "every model, data set and batch size",
   "Floating point agreement is tested for a few shapes only.",
   [M + "model_util.py"], [("autobatch", M + "model_util.py")],
   "Whether a module treats samples independently depends on runtime values and on XLA kernels; that every sample is evaluated once and in order is decided separately (P22).")
na("N03", "Gradients through the eigensolvers are correct",
   "Derivatives of eigenvalues and eigenvectors returned by the matrix modules equal the analytic derivatives wherever these exist.",
   ["inputs"], "every Hermitian matrix with simple spectrum",
   "Finite-difference tests reach a few matrices.",
   [M + "eigen_util.py"], [("eigen solvers", M + "eigen_util.py")],
   "The derivative rules live in jax/XLA, outside this source; the package only selects and orders columns.")
na("N04", "Training reduces the loss",
   "Training with a sensible learning rate on learnable data ends with a validation loss no worse than the initial one and approaches the attainable minimum.",
   ["inputs", "histories"], "every model and data set",
   "Convergence is sampled on toy problems.",
   [M + "training.py"], [("optimizer loop", M + "training.py")],
   "Convergence of a non-convex optimisation depends on runtime numbers no static argument bounds.")
