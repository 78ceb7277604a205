"""Source of properties.jsonl (run: python3 tools/write_properties.py)."""
import json, os
PK = "parametricmatrixmodels/"
def P(id, title, statement, over, qtext, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[PK+f for f in files],
            mechanism=[dict(name=n, where=PK+w) for n, w in mech],
            observe_at=observe, hook_needed=None))
props = [
P("C01", "Limiting the batch size never changes a result",
  "Evaluating a compiled model - predictions, Jacobians with respect to the inputs, or Jacobians with respect to the parameters - with any limit on the batch size gives, sample for sample and in the original order, the result of evaluating all samples at once, whether or not recompilation is being avoided and whether or not the limit divides the number of samples. "
  "When predicting, a stateful model processes the batches in order, each starting from the state the previous one left, and hands back the state left by the last one. "
  "Results do not depend on which limits or options earlier calls on the same model used.",
  ["inputs","configurations","histories"],
  "for every model, number of samples, batch limit, batching mode and sequence of calls with different limits",
  "The tests evaluate a handful of models with one or two batch limits on fixed sample counts; remainders, limit 1, limits above the count, pytrees, stateful modules and mixed call sequences are not combined.",
  ["model_util.py","model.py","tree_util.py"],
  [("split, scan / loop, remainder, concatenate","model_util.py:autobatch"),("cached batched callables","model.py:Model.__call__/grad_input/grad_params"),("batch splitting","tree_util.py:pytree_split, concatenate")],
  ["Model.__call__","Model.grad_input","Model.grad_params"]),
P("C02", "Declared output shapes are the shapes actually produced",
  "For every module and model, every option and every admissible input structure, the output shape announced for an input shape is exactly the tree structure and per-sample shape of the data the compiled module produces, and the batch dimension is preserved. "
  "An input whose structure or shape differs from the one the model was compiled for is rejected with an error instead of producing a result.",
  ["configurations","inputs"],
  "for every module, every combination of its options, every small input shape (bare array or nested container) and every batch size",
  "Unit tests check one or two shapes per module, mostly bare arrays; trees, defaults left unset and composed modules are not crossed.",
  ["modules/","sequentialmodel.py","nonsequentialmodel.py","model.py"],
  [("per-module output shape","modules/*.py:get_output_shape"),("shape propagation on compile","sequentialmodel.py:SequentialModel.compile"),("input verification","model.py:Model._verify_input")],
  ["get_output_shape","compile","__call__"]),
P("C03", "Editing a sequential model behaves like editing a list of functions",
  "At every point of any history of construction, insertion, appending, prepending, removal, replacement, concatenation, recompilation, re-evaluation and editing of a nested model, evaluating a compiled sequential model applies exactly the modules it currently holds, each once, in the order they were arranged. "
  "An edited model demands recompilation before it can be evaluated, removals hand back the removed module, evaluation never returns results of an earlier arrangement, and building one model from another never changes the other.",
  ["histories","configurations"],
  "for every sequence of editing, compiling and calling operations on list, tuple, dictionary and nested arrangements of modules",
  "Tests build a model once and evaluate it; sequences of edits interleaved with evaluation, cached compiled functions and shared containers are never explored.",
  ["model.py","sequentialmodel.py"],
  [("module container editing","model.py:Model.insert_module/append_module/prepend_module/pop_module_by_index/pop_module_by_key/__setitem__/__add__"),("cache invalidation","model.py:Model.reset"),("sequential application","sequentialmodel.py:SequentialModel._get_callable")],
  ["Model.modules","Model.__call__","Model.is_ready"]),
P("C04", "A graph model computes exactly the dataflow its connections describe",
  "For every acyclic wiring of named inputs, modules and outputs, a compiled non-sequential model returns, at every output, the value obtained by following the connections - each module applied to exactly the values wired to it, in the structure the wiring describes - independent of the order in which modules or connections are listed (except that several connections into one destination without numbers are numbered in the order they are listed) and of how they are named or nested. "
  "A wiring that contains a cycle, refers to something that does not exist, or leaves the output or a needed module input unconnected, anywhere in the part of the graph the output needs, is rejected with an error rather than silently evaluated.",
  ["configurations","programs"],
  "for every connection graph over a small number of modules, inputs and outputs, every listing order and every admissible naming",
  "Tests use a few hand-written graphs with friendly names; the space of wirings, fan-out, nesting, naming collisions and invalid graphs is not covered.",
  ["nonsequentialmodel.py","graph_util.py","tree_util.py"],
  [("connection expansion","graph_util.py:concretize_connections/partition_connections_by_tree"),("execution order","graph_util.py:resolve_connections"),("validation","graph_util.py:validate_resolution"),("execution","nonsequentialmodel.py:NonSequentialModel._get_callable")],
  ["NonSequentialModel.__call__","NonSequentialModel.compile"]),
P("C05", "Saving, loading and copying reproduce a model completely and independently",
  "A model written with either save method and read back, or copied, gives the same predictions, parameters, state, random key, trainable flags, hyperparameters, output shapes and optimizer state as the original - and therefore the same continuation of training - for every module type, option, container, nesting and point of the model's life (uncompiled, compiled, trained, partly frozen, precision-changed). "
  "The original and the reproduction are independent: later training, editing, freezing or parameter setting on one never shows in the other.",
  ["configurations","histories"],
  "for every model configuration and every history of operations before and after the save or copy",
  "Tests round-trip two or three list-structured models and compare predictions only; other containers, modules, flags, optimizer state and later independence are not examined.",
  ["model.py","modules/basemodule.py","modules/","nonsequentialmodel.py","training.py"],
  [("serialization","modules/basemodule.py:BaseModule.serialize/deserialize/copy"),("model persistence","model.py:Model.serialize/deserialize/save/save_compressed/load/from_file"),("hyperparameters","modules/*.py:get_hyperparameters/set_hyperparameters")],
  ["Model.from_file","Model.load","BaseModule.copy"]),
P("C06", "Training returns the best validated model and stops when it should",
  "For every sequence of validation losses, training leaves in the model the parameters (with their matching state) that had the lowest validation loss seen, counting the starting parameters, and the earliest such parameters on ties; the model is never left worse than it started. "
  "Training stops after exactly the epoch at which the first of these happens: the epoch limit is reached, the best validation loss is at or below the target, or the configured number of consecutive epochs has passed without an improvement of at least the configured minimum.",
  ["histories","configurations"],
  "for every sequence of validation losses and every combination of epoch limit, patience, minimum improvement and target",
  "Tests train once with default settings and check that the loss went down; the order of losses, ties, plateaus, patience resets and targets are not controlled.",
  ["training.py","model.py"],
  [("best-state bookkeeping and patience","training.py:_train (epoch_body_fn, epoch_cond_fn)"),("writing back","model.py:Model.train")],
  ["Model.train","Model.get_params","Model.get_state"]),
P("C07", "Frozen parameters never change and trainable ones are trained",
  "Whatever subset of a model's modules is frozen, at whatever nesting depth and in whatever order of freezing, unfreezing, training, resuming, saving and loading, training leaves every parameter of a frozen module bit-for-bit unchanged, and updates each trainable parameter exactly as it would be with the frozen ones held constant. "
  "Freezing affects training only: predictions and saved content of a frozen model are those of the unfrozen one.",
  ["configurations","histories"],
  "for every subset of frozen modules, container, nesting depth and history of freeze, unfreeze, train, resume and reload",
  "One fine-tuning test freezes one module of one flat model; other subsets, nested models, container types and freeze histories are not reached.",
  ["model.py","training.py","modules/basemodule.py"],
  [("trainable flags","model.py:Model.get_trainable_modules, Model.trainable"),("masked update","training.py:_train_step"),("flag mapping","model.py:Model.train")],
  ["Model.train","Model.get_params"]),
P("C08", "Every epoch uses every sample exactly once, with its own target",
  "In each training epoch the samples are divided into batches of the requested size plus at most one smaller remainder so that every training sample is used exactly once, together with its own target and uncertainty, and each validation covers every validation sample exactly once without training effects; this holds for every sample count, batch size, data structure and choice of supervised, uncertainty-weighted or unsupervised training. "
  "Stateful modules see the training batches in sequence, and the same seeds reproduce the same run.",
  ["inputs","configurations","schedules"],
  "for every number of samples, batch size, validation batch size, data structure and shuffle",
  "Tests look only at the final loss of one or two runs; a dropped, repeated or misaligned sample would go unnoticed.",
  ["training.py","tree_util.py","model.py"],
  [("shuffling and batching","training.py:_train"),("leaf batching and permutation","tree_util.py:batch_leaves, random_permute_leaves"),("loss wrapping","model.py:Model.train, training.py:train")],
  ["loss function arguments seen during Model.train"]),
P("C09", "Optimizer steps follow Adam, and resuming equals not stopping",
  "Each parameter update made by training is the Adam update for the gradient of the batch loss with the given learning rate or schedule, decay rates, epsilon and clipping, for real and complex parameters alike and whichever differentiation mode is used, with the learning-rate schedule and bias correction advancing once per epoch. "
  "Training for a number of epochs and then resuming - directly, or after copying or saving and loading - yields the same parameters as one uninterrupted run of the same total length.",
  ["histories","configurations","inputs"],
  "for every split of a run into resumed segments, every optimizer setting, and real or complex parameters",
  "Tests never compare against an independent optimizer nor resume a run and compare it with the uninterrupted one.",
  ["training.py","model.py"],
  [("update rules","training.py:adam, complex_adam"),("epoch counter","training.py:_train increment_epoch"),("resume","training.py:train(resume), model.py:Model.train")],
  ["Model.train","Model.get_params"]),
P("C10", "Conformal intervals cover their own calibration data as promised",
  "For every calibration set and every significance level, at least ceil((n+1)(1-alpha)) of the n calibration targets lie inside the interval predicted at that level for their inputs (all of them, with an unbounded or largest-score interval, when that number exceeds n), and no more than one further target when all scores differ, for every output component. "
  "Intervals are centred on the model's prediction plus any requested bias correction, are nested as the level decreases, and use the calibration scores alone, in whatever order the calibration samples are given.",
  ["inputs","configurations"],
  "for every calibration set (every ordering of scores, ties included), significance level, output structure and calibration option",
  "Tests check empirical coverage of one random data set at one level; small calibration sets, ties, extreme levels and options are not enumerated.",
  ["conformal/conformalizedmodel.py"],
  [("scores and sensitivities","conformal/conformalizedmodel.py:ConformalizedModel.calibrate"),("quantile","conformal/conformalizedmodel.py:get_qhat"),("interval construction","conformal/conformalizedmodel.py:__call__")],
  ["ConformalizedModel.__call__ / predict"]),
P("C11", "A conformal wrapper reflects exactly its latest calibration",
  "After any history of calibrations with different data and options, predictions at different levels, and saving and loading, intervals depend only on the wrapped model and the most recent calibration: they equal those of a freshly wrapped model calibrated once with the same data and options. "
  "Wrapping and calibrating never change the wrapped model's own predictions, a calibration that is refused changes nothing, and an uncalibrated wrapper refuses to produce intervals.",
  ["histories","configurations"],
  "for every sequence of calibrate, predict, save and load operations over a small set of data sets, options and levels",
  "Tests calibrate once and predict; recalibration, cached quantiles and persistence of the calibrated state are not exercised together.",
  ["conformal/conformalizedmodel.py"],
  [("quantile cache","conformal/conformalizedmodel.py:get_qhat"),("calibration state","conformal/conformalizedmodel.py:calibrate"),("persistence","conformal/conformalizedmodel.py:serialize/deserialize/save/from_file")],
  ["ConformalizedModel.__call__","ConformalizedModel.from_file"]),
P("C12", "Scalers invert exactly, stay finite and survive persistence",
  "For every scaler, option and data set with finite values - including constant features, single samples, trees of arrays and data not seen in fitting - transforming gives finite values with the documented statistics (range, mean and spread, median and quantile range, one-hot rows) and inverse-transforming the result gives the original data back (one-hot encoding excepted for categories not seen in fitting). "
  "Refitting forgets the previous fit, transforming never alters the scaler or its argument, use before fitting is refused, and a saved and reloaded scaler behaves identically.",
  ["inputs","configurations","histories"],
  "for every scaler configuration, small data set and sequence of fit, transform, inverse transform and save/load",
  "Tests fit each scaler once on one random matrix; constant features, trees, multi-column robust scaling, mixed columns and refits are not covered.",
  ["preprocessing/"],
  [("fit/transform/inverse","preprocessing/*_scaler.py, preprocessing/onehot.py, preprocessing/mixed_scaler.py"),("persistence","preprocessing/scaler.py:Scaler.serialize/deserialize/save/load")],
  ["fit","transform","inverse_transform","save","load"]),
P("C13", "Eigenvalue selection returns the requested eigenpairs of the input",
  "For every Hermitian input matrix, selection rule and count, the eigen-modules return exactly the requested eigenvalues in ascending order (of value, or of magnitude for the rules that go by magnitude) with their multiplicities - the smallest, largest, outermost or innermost, by value or by magnitude - and, where eigenvectors are returned, orthonormal vectors satisfying the eigenvalue equation for precisely those eigenvalues in the same order. "
  "Each sample of a batch and each array of a tree is treated independently, and an impossible request is rejected.",
  ["inputs","configurations"],
  "for every spectrum pattern up to size five (signs, ties, order), selection rule, count and tree structure",
  "Tests compare a few random matrices; ties, sign patterns, odd/even counts and every rule-count combination are not enumerated.",
  ["eigen_util.py","modules/eigenvalues.py","modules/eigenvectors.py","modules/eigensystem.py"],
  [("selection","eigen_util.py:select_eigenpairs_by_eigenvalue/by_fn"),("modules","modules/eigen*.py:_get_callable")],
  ["Eigenvalues","Eigenvectors","Eigensystem"]),
P("C14", "Matrix-model modules compute their documented formulas",
  "For every parameter value, including ones that are not exactly Hermitian (whose Hermitian part counts), and every input, the affine and low-rank Hermitian matrix modules, the affine tensor module, the eigenvalue and observable models and the expectation-value and transition-amplitude sums return what their documented formula gives: matrices are Hermitian and affine in the inputs, energies and expectation sums are real, each sample depends only on its own features. "
  "Initialisation depends only on the seed, yields parameters of the declared shape and number type, and the reported number of trainable numbers matches the parameters.",
  ["inputs","configurations"],
  "for every small size, option combination (bias, centring, smoothing, flattening, rank) and parameter and input values from a structured alphabet",
  "Tests check a few sizes with default options against the same expressions; option combinations and non-Hermitian parameter values are not crossed.",
  ["modules/affinehermitianmatrix.py","modules/lowrankaffinehermitianmatrix.py","modules/affinetensor.py","modules/affineeigenvaluepmm.py","modules/affineobservablepmm.py","modules/expectationvaluesum.py","modules/transitionamplitudesum.py","modules/_smoothing.py"],
  [("forward formulas","modules/*.py:_get_callable"),("initialisation","modules/*.py:compile")],
  ["module __call__","compile","get_num_trainable_floats"]),
P("C15", "Path addressing and tree operations act on exactly the named parts",
  "For every nested container of arrays and every path, reading a path returns the part at that path, writing replaces that part and nothing else, extending a structure by paths creates exactly those paths, and paths that do not exist are reported as errors. "
  "Splitting, batching, permuting, concatenating, casting and arithmetic on trees act on every leaf independently, preserve structure and order, lose no element, and agree with the same operation on each leaf alone; none of these array operations modifies its arguments.",
  ["inputs","configurations"],
  "for every container up to depth three over lists, tuples and dictionaries, every path into it and every split size",
  "Tests use a few literal trees; containers, separators, numeric-looking keys, remainders and dtypes are not crossed.",
  ["tree_util.py"],
  [("path access","tree_util.py:getitem_by_strpath/setitem_by_strpath/extend_structure_from_strpaths"),("tree operations","tree_util.py:pytree_split, batch_leaves, random_permute_leaves, concatenate, safecast, arithmetic")],
  ["tree_util public functions"]),
P("C16", "Reported Jacobians are the derivatives of the predictions",
  "For every differentiable model, the Jacobians with respect to inputs and to parameters returned for a batch are, for each sample, output component and input or parameter component, the derivative of the prediction the same model returns, laid out as documented (output structure over input or parameter structure), identical for forward and reverse mode, wherever JAX admits them for real and complex numbers, and for the automatic choice, which finds a mode that applies; the state entering a batch counts as a constant. "
  "They are taken at the model's current parameters, state and key whatever was evaluated, set, trained or requested before.",
  ["inputs","configurations","histories"],
  "for every model in a closed set, every input structure, mode, and history of parameter changes, mode switches and evaluations",
  "No test checks Jacobians against finite differences of predictions, nor after parameters change or modes switch.",
  ["model.py","model_util.py"],
  [("input Jacobian","model.py:Model.grad_input"),("parameter Jacobian","model.py:Model.grad_params")],
  ["Model.grad_input","Model.grad_params"]),
P("C17", "Evaluation is pure and follows the requested precision",
  "Predicting never changes a model's parameters, state, key or flags unless a state update is requested, and repeating a call gives the same result; randomness comes only from the stored or given key, and every module draws its own numbers from it. "
  "Setting the precision converts every real or complex parameter and state to that precision, leaving integer states alone, while keeping real values real, complex values complex and values unchanged to that precision; inputs are cast to the requested type, and a cast that would discard imaginary parts is refused.",
  ["histories","configurations","inputs"],
  "for every sequence of evaluation, state-update, key and precision operations on models with stateful, random, real and complex modules",
  "Tests evaluate stateless deterministic models in one precision; stateful or random modules and precision changes are not exercised.",
  ["model.py","modules/basemodule.py","tree_util.py","sequentialmodel.py","nonsequentialmodel.py"],
  [("evaluation","model.py:Model.__call__"),("precision","model.py:Model.set_precision, modules/basemodule.py:BaseModule.set_precision"),("casting","tree_util.py:safecast")],
  ["Model.__call__","Model.set_precision","Model.get_state"]),
P("C18", "Loss functions and element-wise modules equal their definitions",
  "Every named loss gives, for all predictions, targets and uncertainties (real or complex, bare arrays or trees), the mean over all output numbers of its documented per-number formula, and unknown names are refused. "
  "Every activation and element-wise module applies its named function to each number of each array of its input, with the options it was given, and leaves structure and batch order alone.",
  ["inputs","configurations"],
  "for every loss name and activation, option setting, data structure and value pattern from a structured alphabet",
  "Tests run the mean-squared error in training and each activation on one array with default options; other losses, trees, complex values and options are not reached.",
  ["training.py","tree_util.py","modules/activationbase.py","modules/_autogenerated_activationfuncs.py","modules/prelu.py"],
  [("loss construction","training.py:make_loss_fn"),("activations","modules/_autogenerated_activationfuncs.py")],
  ["validation loss reported during training","module __call__"]),
P("C19", "Contraction and rearrangement modules move every number correctly",
  "For every operand structure, index string, dimension assignment, operand order and choice of trainable, fixed or no parameter, the contraction and matrix-product modules equal the written-out sum of products over the shared indices for each sample, and reshaping, flattening, tree selection, concatenation, bias and constant modules deliver each input number to its documented place. "
  "Requests whose indices or shapes do not fit are rejected, at compilation or evaluation, rather than answered.",
  ["inputs","configurations"],
  "for every index pattern up to three operands and three indices, operand ordering, tree structure and parameter mode",
  "Tests check a few fixed contraction strings and shapes; operand order, nested paths and parameter positions are not crossed.",
  ["modules/einsum.py","modules/matmul.py","modules/linearnn.py","modules/reshape.py","modules/flatten.py","modules/treekey.py","modules/treeflatten.py","modules/concatenateleaves.py","modules/bias.py","modules/constant.py"],
  [("einsum construction","modules/einsum.py, modules/matmul.py"),("rearrangement","modules/reshape.py, flatten.py, treekey.py, treeflatten.py, concatenateleaves.py")],
  ["module __call__","compile"]),
P("C20", "An interrupt stops training cleanly and keeps the best model",
  "If an interrupt or termination signal arrives at any moment of a verbose training run, the run ends at the end of the epoch in progress and leaves the model with the best validated parameters found so far, ready to be used, saved and resumed. "
  "Once training is over, the process reacts to such signals as it did before training started.",
  ["fault_sequences","crash_points"],
  "for every point of a training run at which a signal is delivered, and every sequence of runs and signals",
  "No test delivers a signal; the moment of delivery and what happens to later signals and runs are not explored.",
  ["training.py"],
  [("signal handling","training.py:GracefulKiller"),("stop condition","training.py:_train epoch_cond_fn")],
  ["Model.train","signal.getsignal"]),
P("C21", "Interval widths follow the documented sensitivities",
  "After every calibration, the uncertainty heuristic at every evaluation point is the sum of the documented terms: the sensitivity to the chosen parameters, to the chosen continuous inputs (with the input uncertainty, if given), and the distance of the chosen inputs, numbers and categories, from the training data, each divided by its spread over the calibration set. "
  "Inputs and parameters that are switched off have no influence on it, the widths of intervals at one level are proportional to it for each output component, and it does not depend on the batch size.",
  ["inputs","configurations"],
  "for every choice of parameters, continuous, sensitive and distance inputs, with and without training data and uncertainties, every cutoff quantile, and every evaluation point",
  "Tests only ask whether a calibrated wrapper returns intervals containing the prediction; any mis-scaled, missing or leaked term keeps them passing because calibration rescales the intervals.",
  ["conformal/conformalizedmodel.py","preprocessing/mixed_scaler.py","preprocessing/onehot.py"],
  [("sensitivities","conformal/conformalizedmodel.py:parameter_sensitivity, input_sensitivity, distance_sensitivity"),("normalisation","conformal/conformalizedmodel.py:calibrate, robust_normalization")],
  ["ConformalizedModel.uncertainty_heuristic","ConformalizedModel.__call__"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
