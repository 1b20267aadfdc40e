"""Regenerates /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

M = "pystruct/models/"; L = "pystruct/learners/"; I = "pystruct/inference/"; U = "pystruct/utils/"

p("P01", "Joint features are the sufficient statistics of the documented energy",
  "For every model family and every valid (x, y), the joint feature vector has the advertised length and equals, in the documented parameter layout, the sums of node features per state and of edge (feature x state pair) indicators, so that dot(w, joint_feature(x, y)) is the sum of the unary and pairwise potentials of y for every w (for undirected and symmetric/antisymmetric parameters in their symmetrised form). "
  "The one-hot marginal tuple of a labeling gives the same vector as the labeling itself, the vector is linear in fractional marginals, and the batch joint feature is the sum over the samples. The vector depends on the values given to the call only, not on other samples the model saw before.",
  ["inputs", "configurations"], "all models, graphs (including empty edge sets, single nodes, reversed, duplicated and unsorted edges), feature dtypes, labelings and marginals",
  "Tests compare a handful of hand-made grids/graphs, mostly 2-3 states; they cannot cover the product of model options, shapes and labelings.",
  [M+"graph_crf.py", M+"edge_feature_graph_crf.py", M+"grid_crf.py", M+"chain_crf.py", M+"multilabel_svm.py", M+"unstructured_svm.py", M+"latent_node_crf.py", M+"latent_graph_crf.py", M+"latent_grid_crf.py", M+"node_type_edge_feature_graph_crf.py", "src/utils.pyx", U+"inference.py"],
  [("one-hot encoding and accumulation", M+"*.joint_feature"), ("symmetric compression", U+"inference.py:compress_sym/expand_sym"), ("Crammer-Singer kernel", "src/utils.pyx:crammer_singer_joint_feature")],
  ["model.joint_feature", "model.batch_joint_feature", "model.size_joint_feature"])

p("P02", "Max-product inference is exact on chains, trees and forests",
  "Whenever the graph has no cycle (chain, tree or forest, with isolated nodes, in any edge order and direction), max-product inference returns an integer label in range for every node and the returned labeling attains the maximum of the summed unary and pairwise potentials, also when several labelings tie. "
  "On graphs with cycles it still terminates and returns one in-range label per node; if the edges that carry any interaction (a non-constant potential) form no cycle and the best labeling is unique, enough iterations, down to a small enough tolerance, find it.",
  ["inputs"], "all acyclic graphs, node numberings, edge orientations, state counts and real potentials including ties; all cyclic graphs for the validity part",
  "Tests draw a few random chains and trees with continuous potentials; ties, isolated nodes, edgeless graphs and unusual edge orders are not sampled.",
  [I+"maxprod.py", I+"_viterbi.pyx", U+"graph_functions.py", U+"graph.py", I+"inference_methods.py", I+"common.py"],
  [("chain/forest detection", I+"maxprod.py:is_chain, "+U+"graph_functions.py:is_forest"), ("dynamic programming", I+"_viterbi.pyx:viterbi"), ("two-pass messages", I+"maxprod.py:tree_max_product"), ("loopy messages", I+"maxprod.py:iterative_max_product")],
  ["inference_dispatch(..., 'max-product')", "inference_max_product", "ChainCRF.inference"])

p("P03", "Inference returns valid labels, exact when the method is exact",
  "Every unrelaxed inference call of every model returns one in-range integer label per node in the shape of the labels, whatever the inference method. "
  "With an exact configuration ('ad3' with branch and bound on any graph, 'lp' and 'ad3' on acyclic graphs with a single best labeling, 'max-product' on acyclic graphs, any method without edges, plain arg-max for binary and multi-class models) the labeling maximises dot(w, joint_feature(x, y)) over all labelings. "
  "When the solver's energy is requested it equals minus the score of the solver's own solution for the graph models. All this holds for the values the arguments have at the call, whatever was computed with the same model, other samples or the same arrays before, and whatever learners were trained in the process.",
  ["inputs", "configurations"], "all models x inference methods x weights x graphs small enough to enumerate, forests of up to hundreds of nodes",
  "Tests run each solver on one or two fixed toy potentials per model.",
  [M+"crf.py", M+"graph_crf.py", M+"grid_crf.py", M+"edge_feature_graph_crf.py", M+"multilabel_svm.py", M+"unstructured_svm.py", M+"node_type_edge_feature_graph_crf.py", M+"typed_crf.py", I+"inference_methods.py", I+"linear_programming.py"],
  [("potentials from weights", M+"*._get_unary_potentials/_get_pairwise_potentials"), ("dispatch and rounding", I+"inference_methods.py"), ("LP constraint matrix", I+"linear_programming.py:lp_general_graph")],
  ["model.inference", "inference_dispatch"])

p("P04", "Relaxed inference returns local marginals that bound the MAP score",
  "A relaxed inference result is either an integral labeling or a tuple of unary and pairwise marginals that, up to solver tolerance, are non-negative, sum to one per node and per edge, and are consistent between edges and their end nodes. "
  "Its score dot(w, joint_feature(x, marginals)) equals minus the reported energy and is at least the score of every integral labeling; for potentials handed directly to the solvers, in any memory layout, it is the optimum over the local polytope, up to solver tolerance, unless the solver reports that it stopped early.",
  ["inputs", "configurations"], "all graph models with 'lp' and 'ad3'/'ad3+', all weights and (loopy) graphs small enough to enumerate, grids of up to 6x7; marginals of the LP solver within its accuracy",
  "Tests look at relaxed results on a few checker-board toys.",
  [I+"linear_programming.py", I+"inference_methods.py", M+"graph_crf.py", M+"edge_feature_graph_crf.py", M+"grid_crf.py", M+"node_type_edge_feature_graph_crf.py"],
  [("LP over the local polytope", I+"linear_programming.py"), ("relaxed result shaping", I+"inference_methods.py:inference_lp/inference_ad3/inference_ad3plus")],
  ["model.inference(relaxed=True)", "model.loss_augmented_inference(relaxed=True)"])

p("P05", "Loss-augmented inference maximises score plus the model's own loss",
  "For every model and ground truth y, loss-augmented inference with an exact solver returns a valid y_hat (for binary models a label in {-1, 1}) that attains the maximum of dot(w, joint_feature(x, y_hat)) + loss(y, y_hat) over all labelings, including under class weights (which weigh errors by the true label), and with a relaxed result that objective, using the continuous loss, is an upper bound of it. "
  "With zero weights it therefore returns a labeling of maximal loss, and its objective is never below the score of y. The result depends on the values given to the call only, not on earlier calls.",
  ["inputs", "configurations"], "all models x class weights x ground truths x weights x exact inference configurations",
  "Tests compare a few random instances with exhaustive search on mostly unweighted 2-3 state toys.",
  [M+"crf.py", M+"base.py", "src/utils.pyx", M+"grid_crf.py", M+"latent_graph_crf.py", M+"latent_grid_crf.py", M+"latent_node_crf.py", M+"unstructured_svm.py", M+"multilabel_svm.py", M+"node_type_edge_feature_graph_crf.py"],
  [("unary loss augmentation", "src/utils.pyx:loss_augment_unaries, "+M+"crf.py:loss_augment_unaries"), ("latent loss augmentation", M+"latent_*_crf.py:loss_augmented_inference")],
  ["model.loss_augmented_inference", "model.batch_loss_augmented_inference", "model.loss"])

p("P06", "The loss is a weighted Hamming loss, consistently in all its forms",
  "For every model loss(y, y_hat) is the sum over the nodes labelled wrongly of the class weight of the true label (1 without class weights): zero exactly when the compared labels agree, non-negative, at most max_loss(y), and computed on the visible labels for latent models. "
  "continuous_loss of one-hot marginals equals the loss of that labeling and is linear in the marginals, batch_loss lists the per-sample losses, and a learner's score is one minus total loss over total maximal loss.",
  ["inputs", "configurations"], "all models, label arrays, class weights and marginal arrays",
  "Tests check isolated loss values.",
  [M+"base.py", M+"grid_crf.py", M+"unstructured_svm.py", M+"typed_crf.py", M+"latent_graph_crf.py", M+"latent_node_crf.py", L+"ssvm.py", L+"latent_structured_svm.py"],
  [("Hamming loss", M+"base.py:loss/continuous_loss/max_loss/batch_loss"), ("visible-label loss", M+"latent_*.py:loss/continuous_loss/base_loss"), ("score", L+"ssvm.py:score")],
  ["model.loss", "model.continuous_loss", "model.batch_loss", "model.max_loss", "learner.score"])

p("P07", "Batched and parallel evaluation equals the per-sample results",
  "Batch inference and batch loss-augmented inference of every model attain per sample the same objective as the single-sample call, and a learner's predict and score do not depend on n_jobs (beyond floating-point noise) and keep the order of the samples; nor do the fitted weights of the cutting-plane learners and the batch perceptron, whose algorithms do not form batches by n_jobs. "
  "Batch joint features and batch losses agree with their per-sample counterparts.",
  ["inputs", "configurations", "schedules"], "all models with batch methods, all learners accepting n_jobs, thread and process workers, sample counts not divisible by the workers",
  "Tests run learners with n_jobs=1 or -1 on single toy sets and hardly ever compare both.",
  [M+"base.py", M+"unstructured_svm.py", L+"ssvm.py", L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"subgradient_ssvm.py", L+"subgradient_latent_ssvm.py", U+"inference.py"],
  [("vectorised batch methods", M+"unstructured_svm.py"), ("joblib fan-out", L+"*.py:Parallel(delayed(...))")],
  ["model.batch_*", "learner.predict", "learner.score", "learner.w"])

p("P08", "Equivalent models and relabelled inputs give equivalent results",
  "The same problem expressed in different model families is scored and decoded the same: chains and grids as general graphs, directional grids as edge-feature graphs, constant edge features as a directed graph, a single node type as the untyped edge-feature model, one latent state per label as the model without latent states. "
  "Permuting nodes, reordering edges, reversing edges together with a transposed (or, for undirected models, unchanged) interaction, and renaming states together with their weights leave joint features, scores, losses and optimal objectives correspondingly unchanged.",
  ["inputs", "configurations"], "all instances of each pair of model families; all permutations",
  "Tests compare one or two such pairs on a fixed toy set.",
  [M+"graph_crf.py", M+"chain_crf.py", M+"grid_crf.py", M+"edge_feature_graph_crf.py", M+"latent_graph_crf.py", M+"latent_grid_crf.py", M+"node_type_edge_feature_graph_crf.py", U+"inference.py"],
  [("grid edges", U+"inference.py:make_grid_edges"), ("chain edges", M+"chain_crf.py:make_chain_edges"), ("edge features of a grid", U+"inference.py:edge_list_to_features")],
  ["model.joint_feature", "model.inference", "model.loss_augmented_inference"])

p("P09", "Latent completion is consistent with the labels and optimal among such",
  "For every latent-variable model, latent(x, y, w) returns a completion whose visible labels are exactly y and, with an exact solver, of maximal score among all completions of y; inference and loss-augmented inference use visible labels only on visible nodes and hidden states only on hidden nodes. "
  "Mapping a completion to labels recovers y, the initial completion of a data set is likewise consistent with the given labels, and this holds whatever the sign and magnitude of the weights (within the numeric range of the solver).",
  ["inputs", "configurations"], "all latent models (state-splitting graph/grid/directional grid, hidden-node with and without edge or node features), weights of any sign and scale, enumerable sizes",
  "Tests use one toy set per model with small, mostly non-negative weights.",
  [M+"latent_graph_crf.py", M+"latent_grid_crf.py", M+"latent_node_crf.py"],
  [("forbidding incompatible states", M+"latent_*.py:latent/_get_unary_potentials"), ("k-means initialisation", M+"latent_*.py:init_latent/kmeans_init"), ("state map", M+"latent_graph_crf.py:_states_map")],
  ["model.latent", "model.init_latent", "model.label_from_latent", "model.inference"])

p("P10", "Multi-type graphs: labels and blocks of different node types never mix",
  "For graphs with several node types, labels of type t predicted by inference lie in the label range of t, flattening per-type labels and unflattening them again is the identity, and each node-type and edge-type-pair block of the joint feature depends only on the nodes, edges and labels of its own types. "
  "Malformed instances (wrong feature widths, missing or out-of-range nodes, edge/feature count mismatches, labels outside their type's range) are rejected with an error instead of being silently misread. After setInferenceException(True), inference raises InferenceException exactly when the solver ends with a fractional solution that would have to be rounded, and never otherwise.",
  ["inputs", "configurations"], "all numbers of types, states, features, empty blocks and edge-type pairs",
  "Tests fix three or four hand-written two-type instances.",
  [M+"typed_crf.py", M+"node_type_edge_feature_graph_crf.py", I+"inference_methods.py"],
  [("type offsets", M+"typed_crf.py:_l_type_startindex"), ("per-type validation", M+"typed_crf.py:_check_size_x/_check_size_xy, "+M+"node_type_edge_feature_graph_crf.py:_check_size_x"), ("type-pair weight slices", M+"node_type_edge_feature_graph_crf.py:_get_pairwise_potentials")],
  ["model.joint_feature", "model.inference", "model.flattenY", "model.unflattenY", "model.initialize"])

p("P11", "Hard logic constraints are satisfied, at the best attainable score",
  "Inference with hard logic constraints (XOR, at-most-one, OR and implications over node states, optionally negated) returns, with exact search, a labeling that satisfies every constraint and has maximal score among those that do, whenever such a labeling exists. "
  "Constraints that hold for the unconstrained optimum do not lower its score, and an empty constraint list means unconstrained inference, per sample when predicting a batch.",
  ["inputs", "configurations"], "all constraint kinds with state and negation lists or scalars, satisfiable sets on enumerable graphs, single- and multi-type",
  "Tests run one or two constraints on a single instance.",
  [I+"inference_methods.py", M+"crf.py", M+"base.py", M+"node_type_edge_feature_graph_crf.py", L+"ssvm.py"],
  [("constraint hand-off", I+"inference_methods.py:inference_ad3plus, "+M+"crf.py:inference"), ("per-sample constraints", L+"ssvm.py:predict, "+M+"base.py:batch_inference")],
  ["model.inference(constraints=...)", "learner.predict(X, constraints)"])

p("P12", "The 1-slack learner converges to the optimum of the structured SVM",
  "When the one-slack learner stops by itself, the true regularised risk of its weights (half squared norm plus C times the summed margin-rescaled structured hinge losses, by exact loss-augmented inference) exceeds the optimum by at most the requested tolerance scaled by C, and its recorded dual objective is a lower bound of that optimum. "
  "The recorded dual values do not decrease from one cutting plane to the next, no recorded primal value is below the dual, and the weights are the feature combination given by the stored dual variables and constraints.",
  ["inputs", "histories", "configurations"], "all training sets small enough for an independent quadratic program over every labeling, C, tolerances, batch modes and models",
  "Tests check that toy sets are fitted; they never compute the optimum of the objective.",
  [L+"one_slack_ssvm.py", L+"ssvm.py", U+"inference.py"],
  [("cutting-plane loop", L+"one_slack_ssvm.py:fit"), ("QP over cutting planes", L+"one_slack_ssvm.py:_solve_1_slack_qp"), ("constraint pruning", L+"one_slack_ssvm.py:prune_constraints")],
  ["learner.w", "learner.objective_curve_", "learner.primal_objective_curve_", "learner.constraints_", "learner.alphas"])

p("P13", "The n-slack learner converges to the optimum of the structured SVM",
  "When the n-slack learner runs to convergence, that is a whole pass finds no violated constraint, the true regularised risk of its weights (exact loss-augmented inference) is the optimum up to solver accuracy; when it stops by tolerance, the dual objective improved by less than the tolerance in the last pass. The recorded dual objective never exceeds the optimum. "
  "This holds for every batch size, and the recorded dual objective does not decrease while no working-set constraint is discarded. (Completions of the true labels of latent models, which have no loss, are by design no constraints.)",
  ["inputs", "histories", "configurations"], "all training sets small enough for an independent QP; batch sizes, C, tolerances",
  "Tests check zero training error on toy sets.",
  [L+"n_slack_ssvm.py", L+"ssvm.py", U+"inference.py"],
  [("working set per sample", L+"n_slack_ssvm.py:_find_new_constraints/_check_bad_constraint"), ("n-slack QP", L+"n_slack_ssvm.py:_solve_n_slack_qp")],
  ["learner.w", "learner.objective_curve_", "learner.constraints_"])

p("P14", "Frank-Wolfe reports duality-gap certificates that bound the true optimum",
  "Every primal value the Frank-Wolfe learner records is the true regularised risk of its weights at that time, every recorded dual value is at most the optimum, and the final weights are the feature combination of the dual iterate (or its documented average), so primal minus dual bounds the suboptimality. "
  "With line search every step maximises the dual along its direction, so that the dual objective of the iterates never decreases, and stopping by tolerance means the true risk of the final weights is within the tolerance scale of the optimum.",
  ["inputs", "histories", "configurations"], "batch and block-coordinate mode, line search on/off, averaging, sampling methods, random seeds, models, C",
  "Tests compare training error on toys.",
  [L+"frankwolfe_ssvm.py", L+"ssvm.py"],
  [("gap computation", L+"frankwolfe_ssvm.py:_calc_dual_gap"), ("block updates", L+"frankwolfe_ssvm.py:_frank_wolfe_bc"), ("batch updates", L+"frankwolfe_ssvm.py:_frank_wolfe_batch")],
  ["learner.w", "learner.l", "learner.objective_curve_", "learner.primal_objective_curve_"])

p("P15", "The subgradient learner follows its documented update and reports truthfully",
  "The weight trajectory of the subgradient learner is exactly the documented schedule of (mini-batch or full) subgradient steps with momentum, learning-rate decay, shuffling and averaging applied to the loss-augmented predictions actually made, and every recorded objective value is the regularised hinge objective those predictions imply. "
  "It stops exactly when no sample of an epoch had a positive slack (if so configured) or after the requested number of epochs.",
  ["inputs", "histories", "configurations"], "batch sizes, momentum, decay, averaging schedules, shuffling, C, models",
  "Tests check that toy sets get fitted, which many wrong updates also achieve.",
  [L+"subgradient_ssvm.py"],
  [("update rule", L+"subgradient_ssvm.py:_solve_subgradient"), ("epoch loops", L+"subgradient_ssvm.py:_sequential_learning/_parallel_learning")],
  ["weights passed to loss-augmented inference", "learner.w", "learner.objective_curve_", "learner.loss_curve_"])

p("P16", "The structured perceptron follows its update rule, average and stopping rule",
  "The perceptron's weights after training are exactly those obtained by adding, for every training prediction that incurs a loss, the decayed difference of true and predicted joint features (per sample online, or per epoch in batch mode), averaged as requested (over nothing, that is zero, if training stops before the averaging starts), and the recorded loss curve is the mean training loss of each epoch. "
  "It stops early exactly at the first epoch without training loss; without averaging the weights then classify all training samples correctly.",
  ["inputs", "histories", "configurations"], "batch/online, averaging start, decay exponents and offsets, maximal epochs, models, multiple fits",
  "Tests check three hand-computed runs on a toy model.",
  [L+"structured_perceptron.py"],
  [("update and averaging", L+"structured_perceptron.py:fit")],
  ["weights passed to inference", "learner.w", "learner.loss_curve_"])

p("P17", "Latent structured SVM alternates completion and fitting consistently",
  "A fitted latent structured SVM's weights are a base-learner solution for the last completion of the training labels it trained on, its predictions are the visible labels of its latent predictions, and its score counts visible-label losses. "
  "It stops when a completion repeats or the iteration limit is reached, with every completion it trains on consistent with the training labels.",
  ["inputs", "histories", "configurations"], "latent models, base learners, iteration limits, initialisations",
  "Tests check accuracy of toy runs.",
  [L+"latent_structured_svm.py", L+"subgradient_latent_ssvm.py", U+"inference.py"],
  [("CCCP loop", L+"latent_structured_svm.py:fit"), ("visible predictions and score", L+"latent_structured_svm.py:predict/score")],
  ["learner.predict", "learner.predict_latent", "learner.score", "learner.w"])

p("P18", "The latent subgradient learner performs its documented updates",
  "The latent subgradient learner's trajectory consists of subgradient steps of the latent hinge loss: for each sample the best completion of the true labels minus the loss-augmented latent prediction under the current weights, with the documented step sizes, decay, momentum and averaging, whether run sequentially or in parallel batches. "
  "Recorded objective values are those implied by the predictions made; predict returns visible labels and score counts visible-label losses.",
  ["inputs", "histories", "configurations"], "latent models, batch settings, step-size settings",
  "One smoke test on a toy grid.",
  [L+"subgradient_latent_ssvm.py", U+"inference.py"],
  [("latent constraint", U+"inference.py:find_constraint_latent"), ("update", L+"subgradient_latent_ssvm.py:fit")],
  ["weights passed to inference", "learner.w", "learner.objective_curve_", "learner.predict", "learner.score"])

p("P19", "Inference caching and constraint pruning never change what is learned",
  "Re-using cached loss-augmented predictions or pruning inactive constraints only saves inference calls: with any cache size, pruning threshold or warm start, a converged one-slack learner reaches an objective within tolerance of the same optimum. "
  "No sample's cache ever holds more predictions than the configured size, and every cached prediction is one that inference returned for that sample.",
  ["inputs", "histories", "configurations"], "cache sizes, cache tolerances, pruning thresholds, warm starts",
  "Tests fit one toy set with a cache and check accuracy.",
  [L+"one_slack_ssvm.py"],
  [("constraint cache", L+"one_slack_ssvm.py:_update_cache/_constraint_from_cache"), ("pruning", L+"one_slack_ssvm.py:prune_constraints")],
  ["learner.w", "learner.objective_curve_", "learner.cached_constraint_", "learner.inference_cache_"])

p("P20", "Saved and pickled learners come back unchanged",
  "Pickling and unpickling a fitted learner, or loading what the save logger wrote, yields a learner that predicts and scores exactly as the original did at that moment, and saving does not alter the learner being trained, also when writing fails. "
  "The logger writes a file exactly on the configured iterations and at the end of training, each under its fixed name or the name its '%d'-template denotes (the iteration, or 'final').",
  ["inputs", "histories", "fault_sequences"], "learners and models, save intervals, file name templates, failing writes",
  "One test checks that a saved object has equal weights.",
  [U+"logging.py", L+"ssvm.py"],
  [("logger", U+"logging.py:SaveLogger")],
  ["SaveLogger", "pickle", "learner.predict"])

p("P21", "Interrupting training at any point leaves a usable learner",
  "A KeyboardInterrupt raised during any model call made by the training iterations of the cutting-plane, subgradient, Frank-Wolfe and perceptron learners ends fit early but normally (also without harm to later refits or warm starts), leaving finite weights of the right size with which predict and score work. "
  "The weights are those of some state the uninterrupted training passes through up to that point or the solution over the constraints found so far.",
  ["crash_points", "fault_sequences", "histories"], "every model call of a training run as the interruption point, for each learner and model",
  "No test interrupts training.",
  [L+"one_slack_ssvm.py", L+"n_slack_ssvm.py", L+"subgradient_ssvm.py", L+"subgradient_latent_ssvm.py", L+"frankwolfe_ssvm.py", L+"structured_perceptron.py"],
  [("except KeyboardInterrupt", L+"*.py:fit")],
  ["learner.fit", "learner.w", "learner.predict"])

p("P22", "Native kernels never touch memory outside their arrays",
  "For every input accepted by the public API, the compiled kernels (Viterbi decoding, loss augmentation, multi-class joint features) read and write only inside the arrays they are given, and compute the same values as a plain reference for every supported integer label type and memory layout. "
  "Labels outside the state range are rejected with an error instead of corrupting memory by every model that hands labels to the kernels (graph, chain, grid, edge-feature, multi-label, typed and multi-class models).",
  ["inputs"], "array shapes including empty and single-row, strides, byte widths, label values in and out of range",
  "Tests never run under a sanitizer and do not pass out-of-range labels.",
  ["src/utils.pyx", I+"_viterbi.pyx", M+"crf.py", M+"unstructured_svm.py", I+"maxprod.py"],
  [("unchecked loops", "src/utils.pyx, "+I+"_viterbi.pyx (boundscheck=False)")],
  ["model.loss_augmented_inference", "model.batch_joint_feature", "inference_max_product", "AddressSanitizer/UBSan reports"])

p("P23", "Neither inference nor training modifies the caller's data",
  "Joint features, inference, loss-augmented inference, losses, latent completion, initialisation, fitting, prediction and scoring leave the caller's inputs, labels, weights, potentials, edges, constraints and data containers bitwise unchanged, and results returned earlier do not change when the model or learner is used again.",
  ["inputs", "histories", "configurations"], "all models, inference methods and learners; float64 and other dtypes, contiguous and strided arrays",
  "No test checks inputs after a call.",
  [M+"crf.py", M+"multilabel_svm.py", M+"latent_graph_crf.py", I+"inference_methods.py", I+"maxprod.py", I+"_viterbi.pyx", L+"one_slack_ssvm.py", L+"n_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"subgradient_ssvm.py", L+"structured_perceptron.py"],
  [("defensive copies", I+"maxprod.py:inference_max_product, "+M+"*._get_unary_potentials")],
  ["arguments of every public call before and after"])

p("P24", "Data set generators are deterministic, well-formed and documented-shape",
  "Every synthetic data generator returns as many samples as asked, inputs and labels of matching spatial shape, finite features and integer labels in the described range, is reproducible for the same arguments (and global random state, for those that draw from it), contains exactly the described shapes, and embeds the labels noiselessly (the clean signal is recovered exactly at zero noise, and the noise has the requested level).",
  ["inputs", "configurations"], "sample counts, sizes, noise levels, directed/undirected variants, seeds of the global generator",
  "Tests use default parameters only.",
  ["pystruct/datasets/synthetic_grids.py"],
  [("generators", "pystruct/datasets/synthetic_grids.py:generate_*")],
  ["generate_*"])

p("P25", "Malformed problems are rejected with an error, not silently computed on",
  "Weights of the wrong length, inputs with the wrong number of features or edge features, mismatched edge and edge-feature counts, edges to nodes that do not exist, class weights of the wrong length, contradictory symmetric/antisymmetric edge features, data whose number of states or features contradicts the model, potentials of wrong shape and unknown method names all raise an error naming the problem before anything is computed. "
  "A model whose sizes are inferred from data accepts that data and then behaves as one constructed with those sizes.",
  ["inputs", "configurations"], "all models and public inference functions, one corrupted argument at a time",
  "Tests try a few of the combinations.",
  [M+"base.py", M+"crf.py", M+"graph_crf.py", M+"edge_feature_graph_crf.py", M+"chain_crf.py", M+"multilabel_svm.py", M+"unstructured_svm.py", M+"latent_node_crf.py", M+"latent_graph_crf.py", I+"common.py", I+"inference_methods.py", I+"linear_programming.py"],
  [("size checks", M+"*._check_size_w/_check_size_x/initialize"), ("potential validation", I+"common.py:_validate_params")],
  ["exceptions raised by the public calls"])

p("P26", "Training is a deterministic function of its data and parameters",
  "Fitting twice with the same data, parameters and random seed (random_state, or the global generator for learners initialised from it) gives the same weights, whether on a new learner or by calling fit again on the same learner without warm start, and an unrelated model or learner used in between does not matter. "
  "Without warm start the recorded curves belong to the latest fit alone, with one entry per recorded iteration and timestamps that do not decrease; with warm start, training continues from the previous solution (and curves) and ends no worse than it started.",
  ["inputs", "histories", "configurations"], "all learners and models, repeated and interleaved fits",
  "Tests do not refit.",
  [L+"one_slack_ssvm.py", L+"n_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"subgradient_ssvm.py", L+"structured_perceptron.py", L+"latent_structured_svm.py"],
  [("state reset in fit", L+"*.py:fit"), ("random_state", L+"subgradient_ssvm.py, "+L+"frankwolfe_ssvm.py")],
  ["learner.w after repeated fits"])

p("P27", "Graph utilities: grid edges, edge features, symmetric packing, tree tests",
  "Grid edges connect exactly the 4- or 8-neighbours of the grid, each once, grouped by direction when lists are requested; directional edge features mark exactly the direction of each edge; packing a symmetric matrix and expanding it are inverse to each other and preserve the interaction score. "
  "The forest test is true exactly for graphs without cycles, and the energy helper returns the summed potentials of a labeling.",
  ["inputs"], "all grid sizes, neighbourhoods, matrix sizes, graphs",
  "Tests check one grid and one matrix.",
  [U+"inference.py", U+"graph.py", U+"graph_functions.py", I+"common.py"],
  [("grid edges", U+"graph.py:make_grid_edges/edge_list_to_features"), ("packing", U+"inference.py:compress_sym/expand_sym"), ("forest test", U+"graph_functions.py:is_forest")],
  ["pystruct.utils functions", "compute_energy"])

p("P28", "External solver wrappers hand over exactly the problem they are given",
  "The wrappers for the optional QPBO and OpenGM solvers pass on a problem whose minimum-energy labeling is the maximum-score labeling of the given potentials and edges (up to their documented integer scaling), and return that solver's labeling in the shape of the input, without modifying the arguments.",
  ["inputs", "configurations"], "potentials, shared or per-edge pairwise terms, graphs, grid-shaped inputs",
  "The optional solvers are not installed, so these paths are never run by the tests.",
  [I+"inference_methods.py"],
  [("QPBO wrapper", I+"inference_methods.py:inference_qpbo"), ("OpenGM wrapper", I+"inference_methods.py:inference_ogm")],
  ["arguments received by a stand-in solver module"])

p("P29", "Parameter constraints and user-supplied cutting planes are honoured",
  "With weights constrained to be non-positive on given positions (negativity_constraint), the trained one-slack and n-slack learners have no positive weight there (within solver accuracy) and still reach the optimum of the correspondingly constrained objective. "
  "Constraints passed in by the caller are treated as part of the problem and never lead to an error or a worse objective.",
  ["inputs", "histories", "configurations"], "index sets, C, models, initial constraint sets",
  "One test per learner on a toy grid.",
  [L+"one_slack_ssvm.py", L+"n_slack_ssvm.py"],
  [("negativity constraint in the QP", L+"one_slack_ssvm.py:_solve_1_slack_qp, "+L+"n_slack_ssvm.py:_solve_n_slack_qp")],
  ["learner.w"])

p("P30", "Objective helpers and plots report the objective they claim",
  "The primal objective helper equals half the squared weight norm plus C times the summed hinge losses by loss-augmented inference, for the n-slack variant with each slack clipped at zero; the most-violated-constraint helper returns the feature difference, loss and non-negative slack that belong together, and the exhaustive inference helpers return a true maximiser. "
  "The training losses a learner records with show_loss_every are the losses of its predictions at those iterations, score() is that of predict(), and the learning plots draw exactly the recorded curves.",
  ["inputs", "configurations"], "models, weights, samples, learners",
  "Tests use them as oracles without checking them.",
  [U+"inference.py", U+"plotting.py", "pystruct/plot_learning.py", L+"ssvm.py"],
  [("helpers", U+"inference.py:objective_primal/find_constraint/exhaustive_*")],
  ["pystruct.utils functions", "learner.loss_curve_", "learner.score", "plot_learning"])

p("P31", "Concurrent calls on shared models give each caller its own result",
  "When several threads use one model at the same time with their own samples, labels and weights (inference, loss-augmented inference, joint features, losses and their batch versions), or call predict and score on one fitted learner, or train different learners at the same time, every call returns what it returns when made alone; results of one caller are never seen by another.",
  ["schedules", "inputs", "configurations"], "all interleavings of calls of a few threads on shared models, fitted learners, and concurrently trained learners, all model families",
  "Tests are sequential, apart from n_jobs on one toy; state kept on a model between two lines of a method only shows under an unlucky switch.",
  [M+"crf.py", M+"base.py", M+"graph_crf.py", M+"edge_feature_graph_crf.py", M+"grid_crf.py", M+"unstructured_svm.py", M+"latent_node_crf.py", L+"ssvm.py", U+"inference.py"],
  [("stateless inference", M+"crf.py:inference/loss_augmented_inference"), ("threaded oracle calls", L+"n_slack_ssvm.py, "+L+"subgradient_ssvm.py")],
  ["model.inference", "model.loss_augmented_inference", "model.joint_feature", "learner.predict", "learner.fit"])

p("P32", "Learners follow the estimator protocol: parameters, clone, model selection",
  "For every learner, get_params returns exactly the constructor arguments, also after training; set_params (all at once or one by one, before or after training, nested through a latent learner) makes the learner behave as if constructed with those values; unknown names are refused; clone gives an untrained learner with equal parameters that trains to the same result; the documented defaults apply when nothing is given. "
  "Cross-validation and grid search through scikit-learn give the same scores as explicit loops over the same splits, and training never alters a parameter.",
  ["inputs", "configurations", "histories"], "all learners x parameter sets x model families x small data sets",
  "Tests clone no learner and run one grid search on one toy.",
  [L+"ssvm.py", L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"subgradient_ssvm.py", L+"subgradient_latent_ssvm.py", L+"frankwolfe_ssvm.py", L+"structured_perceptron.py", L+"latent_structured_svm.py"],
  [("constructor arguments stored unchanged", L+"*.__init__"), ("learned state kept apart from parameters", L+"*.fit")],
  ["learner.get_params", "learner.set_params", "sklearn.base.clone", "cross_val_score", "GridSearchCV"])

p("P33", "The downhill simplex learner keeps the best weights it tried",
  "PrimalDSStructuredSVM.fit ends with weights that attain the lowest value of its objective (mean hinge loss by loss-augmented inference plus squared norm over 2C) among all weight vectors at which it called the model's oracle, never worse than its starting points and never below the true minimum; predict then returns best labelings under these weights.",
  ["inputs", "configurations"], "small data sets x models x C",
  "The tests look at the accuracy on one toy problem.",
  [L+"downhill_simplex_ssvm.py", U+"inference.py", L+"ssvm.py"],
  [("two simplex searches, the better kept", L+"downhill_simplex_ssvm.py:PrimalDSStructuredSVM.fit"), ("hinge loss", U+"inference.py:find_constraint")],
  ["learner.w", "model.loss_augmented_inference", "learner.predict"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
