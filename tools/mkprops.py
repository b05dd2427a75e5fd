#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

GB="src/gradientbooster.rs"; TR="src/tree.rs"; SP="src/splitter.rs"; UT="src/utils.rs"; ND="src/node.rs"
HI="src/histogram.rs"; BI="src/binning.rs"; ME="src/metric.rs"; OB="src/objective.rs"; SA="src/sampler.rs"
SH="src/shapley.rs"; PD="src/partial_dependence.rs"; DA="src/data.rs"; GR="src/grower.rs"
PYR="py-forust/src/lib.rs"; PYI="py-forust/forust/__init__.py"; PYS="py-forust/forust/serialize.py"

p("C01","Prediction equals base score plus routed leaf weights",
  "For every model and every batch of records, the prediction of a record is the base score plus, for each of the trees in use (all of them, or the first `prediction_iteration`, which is at most the number of trees), the weight of the leaf reached by routing the record through the dumped tree: missing value to the missing child, value strictly below the split value to the left child, anything else to the right child. The predicted leaf indices name exactly those leaves, and every record is predicted independently of which other records are in the batch, their order, and the parallel flag.",
  ["inputs","configurations"],"all trained models (both objectives, binary and missing-branch trees, any missing sentinel, any prediction_iteration) and all record batches, including values exactly on, next to and far from split values, infinities and missing values",
  "Tests compare a few predictions on the Titanic fixture with stored numbers; they never route arbitrary records through arbitrary trees, and do not cover other sentinels, boundary values or truncated tree counts.",
  [GB,TR,ND,DA],[("predict / get_prediction_trees",GB),("Tree::predict, predict_leaf_indices",TR),("Node::get_child_idx",ND)],["GradientBooster::predict","predict_leaf_indices","json_dump"])

p("C02","Training and prediction are deterministic and thread-count independent",
  "Fitting the same data with the same parameters and seed always yields the same model, bit for bit: on repeated fits, with parallelism on or off, and with any number of worker threads, also when row or column sampling is used. Every prediction-side computation (predictions, leaf indices, contributions) likewise gives bitwise identical results with parallelism on or off; partial dependence agrees up to floating point summation order.",
  ["schedules","inputs","configurations"],"all datasets and parameter settings, all thread counts and interleavings of the data-parallel work",
  "The tests run each configuration once on one machine and never compare parallel with serial results or repeated fits across thread pools.",
  [GB,TR,HI,SA],[("rayon par_iter in predict/contributions",GB),("HistogramMatrix::new parallel",HI),("seeded StdRng",GB)],["json_dump after fit","predict*"])

p("C03","Saved models load back as the same model",
  "Any model, fitted or not, that is dumped to JSON text or saved to a file loads back as a model that has the same parameters, trees, base score, evaluation history, best iteration, prediction iteration and metadata, and whose predictions, leaf indices and contributions are bitwise identical (importances and partial dependences equal up to summation order). Dumping the loaded model gives the same document again, and refitting the loaded model on the same data gives the same result as refitting the original.",
  ["inputs","configurations","histories"],"all parameter settings and all training data, including non-finite values of missing, base score, split values and evaluation metrics, and arbitrary metadata strings",
  "Tests round-trip one Titanic model with default parameters; float exactness, non-finite values, evaluation history and the full parameter space are not sampled.",
  [GB,TR,ND,DA,ME],[("json_dump/from_json/save_booster/load_booster, serde attributes",GB)],["json_dump","from_json","save_booster","load_booster"])

p("C04","Training data is binned consistently with the raw values",
  "For every column the cut points are strictly increasing and taken from the data: all distinct non-missing values when there are few enough for the requested number of bins, otherwise the sample-weighted quantiles at equally spaced levels starting with the minimum. A record's bin is 0 exactly when its value is missing and otherwise the number of cut points not larger than the value, so a split learned on bins separates raw values exactly as the reported split value does. Consequently, applying a strictly increasing transformation to a feature changes no prediction of the fitted model.",
  ["inputs","configurations"],"all columns (constant, all missing, duplicated, heavy-tailed, infinite, negative zero), all weights including zeros, all bin counts and missing sentinels",
  "Tests bin one fixture with fixed bin counts and unit weights.",
  [BI,UT],[("bin_matrix / percentiles_or_value",BI),("percentiles, map_bin",UT)],["bin_matrix","split values in the dump"])

p("C05","Trees are well formed and respect the growth limits",
  "Every fitted tree is a proper tree: children are numbered and linked consistently, each node other than the root has exactly one parent and depth one more than it, every internal node has two children plus, only when a separate missing branch was requested, a distinct missing child. No tree is deeper than the maximum depth or has more leaves than the maximum number of leaves, there are as many trees as iterations requested (unless stopped early), and no split leaves a branch no record could ever reach. Depth-wise growth with a leaf limit splits nodes closer to the root first. Without a leaf limit, the depth-wise and loss-guided growth policies produce the same predictor.",
  ["inputs","configurations"],"all datasets and all combinations of max_depth, max_leaves, grow policy, missing handling and sampling",
  "Tests check max_leaves for one setting of one dataset and do not cover missing branches, tiny limits, or the equivalence of policies.",
  [TR,GR,SP,GB],[("Tree::fit leaf accounting",TR),("new_leaves_added",SP),("Grower",GR)],["json_dump trees"])

p("C06","Node cover equals the hessian of the training records routed to it",
  "For a model trained without row sampling, the cover reported for every node of every tree equals, up to single-precision rounding, the sum of the loss hessians of exactly those training records that reach the node when their raw values are routed through the dumped tree, evaluated at the predictions of the preceding trees. Children's covers add up to their parent's, and no left or right child produced by a split has a cover below the minimum leaf weight.",
  ["inputs","configurations"],"all datasets (ties, missing values, zero weights, many bins, several thousand rows), objectives and parameter settings",
  "Tests compare a few total sums on the fixture; they never check that the partition used while training is the partition used when predicting.",
  [TR,SP,HI,UT,BI],[("pivot_on_split, pivot_on_split_exclude_missing",UT),("histogram subtraction",HI),("min_leaf_weight checks",SP)],["json_dump hessian_sum"])

p("C07","Leaf weights are regularised Newton steps",
  "For a model trained without row sampling or monotone constraints, the weight of every left, right or root node of every tree equals the learning rate times the Newton step of the records in the node: minus the L1-soft-thresholded gradient sum divided by hessian sum plus L2, limited in magnitude to the maximum delta step when that is non-zero. Gradients and hessians are those of the objective at the predictions accumulated from the preceding trees and the base score, weighted by the sample weights.",
  ["inputs","configurations"],"all datasets, objectives, weights and values of learning_rate, l1, l2, max_delta_step, base_score, iterations",
  "Tests compare a handful of predictions with XGBoost for a few settings on one dataset.",
  [UT,TR,SP,OB,GB],[("weight, l1_regularization",UT),("as_node learning-rate scaling",ND),("grad/hess recomputation per iteration",GB)],["json_dump weight_value"])

p("C08","Every split is the best admissible one and its reported gain is right",
  "For models trained without sampling, each split's reported gain equals the reduction of the regularised second-order loss it achieves (up to single precision), that reduction exceeds gamma, and no other admissible split of the same records over the available features and cut points (respecting minimum leaf weight and missing-value rules) achieves a larger reduction. Splits below a missing branch whose weight was assigned from its parent are not covered. A node is left unsplit only if no admissible split exceeds gamma, or a depth or leaf limit stopped it.",
  ["inputs","configurations"],"all datasets and parameter settings; all nodes of all trees; all candidate feature/cut/missing-direction triples",
  "Tests evaluate the split finder on two or three hand-made histograms.",
  [SP,HI,ND,UT],[("best_split, best_feature_split, evaluate_split",SP),("get_split_gain",ND),("gain_given_weight, cull_gain",UT)],["json_dump split_feature/split_value/split_gain"])

p("C09","Monotone constraints hold over the whole input space",
  "If a feature is constrained to be increasing (decreasing), then for any two records that differ only in a non-missing value of that feature, the record with the larger value never gets a smaller (larger) prediction, at any number of trees. This holds whatever other features are constrained or unconstrained, whatever the missing handling, and whatever the other parameters; features marked unconstrained behave as if not listed.",
  ["inputs","configurations"],"all training data, all constraint maps (also mixed and partial), both missing strategies, all pairs of records differing in one constrained feature",
  "Tests check one fully constrained Titanic model per strategy along sorted training values.",
  [SP,UT,GB],[("constrained_weight, cull_gain",UT),("bounds propagation",SP)],["predict on grids"])

p("C10","Missing values are learned and routed consistently in binary trees",
  "Without a separate missing branch, each split sends all missing values to one of its two children, and that direction is the one with the larger loss reduction for the training records (the right one when the node has no missing records). Which numeric sentinel denotes missing is irrelevant: replacing NaN by any other sentinel value not occurring in the data, with the parameter set accordingly, gives the same model and predictions. If missing-only splits are disallowed, both children of every split receive non-missing training records; if they are allowed, separating missing from present records is among the candidates and is done when it reduces the loss most.",
  ["inputs","configurations"],"all patterns of missing values in training and scoring data, all sentinels, both settings of allow_missing_splits",
  "Tests use one dataset with NaN and one sentinel.",
  [SP,UT,ND,BI],[("MissingImputerSplitter::evaluate_split",SP),("is_missing, missing_compare, map_bin",UT),("get_child_idx",ND)],["json_dump missing_node","predict"])

p("C11","Missing-branch trees treat missing values as configured",
  "With a separate missing branch, every split has its own missing child receiving exactly the records whose value is missing, and the missing child's weight follows the configured treatment: the parent's weight, its own Newton step (the parent's weight when no record is missing), the cover-weighted average of its siblings, or the bottom-up cover-weighted average of the final leaves. The missing child is split further only if missing splits are allowed, the feature is not in the terminate set, and some records are missing; with force_children_to_bound_parent the left and right weights of each split enclose the parent's weight.",
  ["inputs","configurations"],"all datasets with any missing pattern, all four treatments, terminate sets, allow_missing_splits, constraints and bounding options",
  "Tests run a few treatments on one dataset and check aggregate neutrality only.",
  [SP,TR,UT],[("MissingBranchSplitter::evaluate_split/handle_split_info/clean_up_splits",SP),("bound_to_parent, pivot_on_split_exclude_missing",UT)],["json_dump missing_node weight/leaf"])

p("C12","Feature contributions add up to the prediction",
  "For every model whose splits have positive cover, and every record, the contributions of the Weight, Average and Shapley methods including the bias term sum to the prediction, and those of ProbabilityChange sum to the predicted probability, up to floating-point rounding. A feature no tree in use splits on contributes exactly zero under every method, contributions use the same trees as predictions, and each record's contributions do not depend on the rest of the batch or the parallel flag.",
  ["inputs","configurations"],"all trained models (both tree kinds, any prediction_iteration), all records including missing and out-of-range values, all contribution methods",
  "Tests check additivity on the fixture for a few methods.",
  [GB,TR,SH],[("predict_contributions*",GB),("row methods, distribute_leaf_weights",TR),("tree_shap",SH)],["predict_contributions"])

p("C13","Each contribution method computes its documented quantity",
  "For models whose splits have positive cover, Shapley contributions equal the exact Shapley values of the tree-path-dependent cooperative game (cover-weighted averaging over unknown features, brute force over all coalitions), with the bias the cover-weighted average prediction. Weight and Average follow the change of node weight (assigned weight, respectively cover-weighted average of the leaves below) along the record's path; ProbabilityChange follows the change of probability; Branch-, Midpoint- and ModeDifference accumulate the travelled child's weight minus the other child's, the children's cover-weighted mean, and the larger-cover child's weight respectively (equal covers counting zero), with zero for a separate missing branch; the bias of the difference methods is the base score.",
  ["inputs","configurations"],"all trees (repeated features on a path, missing branches, empty missing leaves), all records, all methods",
  "Tests compare Shapley with XGBoost on two fixture models and the difference methods with stored sums.",
  [SH,TR,GB],[("tree_shap/extend_path/unwind_path",SH),("predict_contributions_row_*",TR)],["predict_contributions"])

p("C14","Partial dependence is the cover-weighted expectation over the model",
  "For models whose splits have positive cover, the partial dependence of a feature at a value equals the base score plus, over the trees in use, the expected leaf weight when splits on that feature follow the value (missing to the missing child) and all other splits are averaged by the children's covers. As a consequence a feature not used by the model has constant partial dependence, and the Python grid helper returns this quantity at exactly the requested or sampled values, in order.",
  ["inputs","configurations"],"all models, features and values including missing, infinite and boundary values",
  "Tests check two hand-picked trees and a plot-like smoke test.",
  [PD,GB,PYI],[("tree_partial_dependence",PD),("value_partial_dependence",GB)],["value_partial_dependence","partial_dependence"])

p("C15","Feature importances aggregate exactly the splits in the model",
  "For each method the importance of a feature equals the number of its splits, or the total or average of the gain or cover of its splits, over all trees of the model including those inside missing branches; features that are never split on are absent. Normalised importances are the same values divided by their total, and the result is identical on every call.",
  ["inputs","configurations"],"all models and all five importance methods, normalised or not",
  "Tests compare with XGBoost for one model.",
  [GB,TR],[("calculate_feature_importance",GB),("calc_feature_node_stats",TR)],["calculate_feature_importance"])

p("C16","Evaluation history and early stopping follow the metric exactly",
  "With evaluation data the history has one row per trained tree and one column per evaluation set, each entry the metric of the model truncated to that many trees on that set. With early stopping (at least one round), training stops at the first iteration that is the given number of rounds after the best iteration of the last evaluation set, the best iteration is the first one attaining the best value (undefined values never beat defined ones), predictions then use exactly the trees up to the best iteration, and supplying evaluation data changes no tree.",
  ["histories","inputs","configurations"],"all training/evaluation data combinations, metrics, stopping rounds, number and order of evaluation sets",
  "Tests run one early-stopping configuration and check only that it stopped.",
  [GB,ME,DA],[("fit_trees evaluation loop, update_best_iteration",GB),("is_comparison_better",ME)],["evaluation_history","best_iteration","prediction_iteration"])

p("C17","Evaluation metrics equal their definitions",
  "AUC equals the weighted probability that a random positive scores above a random negative with ties counting half (undefined when a class is absent); log loss, RMSE and RMSLE equal their weighted-mean definitions, for any finite predictions however extreme (RMSLE is undefined when a prediction is below -1). Metrics are invariant to record order, to scaling all weights, to dropping zero-weight records and to replacing an integer weight by repetition, and AUC is also invariant to strictly increasing transformations of the scores.",
  ["inputs"],"all label, prediction and weight vectors, including ties, single records, zero weights, saturated predictions",
  "Tests check a few fixed vectors without ties between classes or weights of zero.",
  [ME],[("roc_auc_score, log_loss, root_mean_squared_error, root_mean_squared_log_error",ME)],["metric functions","evaluation_history"])

p("C18","Gradients, hessians and initial score derive from the stated loss",
  "For each objective the gradient and hessian supplied to training are the first and second derivatives of the weighted loss with respect to the raw prediction (squared loss up to the constant factor one half), linear in the sample weight, and the loss is finite for finite predictions. An initialised base score is the constant prediction minimising the total weighted loss: the weighted mean for squared loss and the log-odds of the weighted positive rate for log loss; a base score set explicitly is used unchanged.",
  ["inputs"],"all labels, predictions (including saturated ones) and weights",
  "Tests check three hand-picked values.",
  [OB,GB],[("calc_grad_hess, calc_loss, calc_init",OB),("initialize_base_score",GB)],["objective functions","base_score after fit"])

p("C19","Row and column sampling use exactly the sampled data",
  "With random row sampling each record enters each tree independently with the given probability, and each tree is the tree that would be grown on exactly the sampled records; GOSS always keeps the stated fraction of records with the largest absolute gradients and reweights the sampled remainder so that its total is preserved in expectation. With column sampling each tree splits only on a subset of the stated size (the fraction of the number of columns, rounded down), freshly and uniformly drawn per tree; with sampling fractions of one nothing changes, and predictions of every record, sampled or not, still update by the grown tree.",
  ["inputs","configurations"],"all datasets, seeds, sampling methods and rates",
  "Tests check the sampler's average size once and that sampled fits run.",
  [SA,GB,TR,HI],[("RandomSampler, GossSampler",SA),("sample_index, colsample",GB),("root sums over the sample",TR)],["json_dump covers, weights and split features"])

p("C20","Invalid inputs are rejected cleanly, valid ones never crash",
  "NaN in labels, NaN or negative sample weights (training or evaluation) and NaN or negative rates, penalties or fractions given to the constructor are reported as errors (ValueError in Python), and a rejected fit, whatever the columns of its data, leaves the trees, base score, feature names and predictions of an already fitted model unchanged. Loading arbitrary text or a missing file returns an error or a model, never a crash. On every valid input (any shape with at least one record and one feature, constant or fully missing columns, single-class labels, zero weights, extreme finite values) fitting and scoring complete without crashing and give finite predictions whenever the base score is finite and the problem is regularised (positive L2, or squared loss without row sampling and a positive minimum leaf weight).",
  ["inputs","fault_sequences","histories"],"all positions and kinds of invalid value, arbitrary and mutated JSON documents, all degenerate but valid datasets",
  "Tests check one NaN label vector and one negative parameter.",
  [GB,UT,BI,SP,PYR],[("validate_parameters, fit validation",GB),("validate_* helpers",UT)],["fit/new/from_json results"])

p("C21","Training respects weight, order and scale symmetries",
  "Fitting is invariant under the symmetries of its definition: permuting the training records or replacing integer weights by repeated records leaves the fitted function unchanged up to rounding, zero-weight records do not influence predictions of the others when their feature values also occur elsewhere, and fitting without weights equals fitting with unit weights. Scaling all weights together with the L1, L2, gamma and minimum leaf weight parameters by a power of two leaves all predictions bitwise unchanged, and for squared loss scaling the labels, base score, L1 and max delta step by a power of two (gamma by its square) scales predictions exactly, and negating labels and base score while reversing monotone constraints negates them. Without column sampling, adding a constant column changes nothing, and swapping the classes of log loss negates the predictions up to rounding.",
  ["inputs","configurations"],"all datasets, weights, permutations, scale factors and parameter settings",
  "No test fits the same problem twice in two equivalent forms.",
  [GB,OB,TR,SP,BI],[("fit, fit_unweighted",GB),("calc_grad_hess",OB),("weighted percentiles",BI)],["predict","json_dump"])

p("C22","Python results do not depend on how the same data is laid out",
  "Passing the same numbers as a pandas DataFrame or numpy array, in C or Fortran order, as a strided or reversed view, with integer, boolean or float dtypes, or with labels and weights as series, arrays or views, gives identical models and predictions as passing contiguous float arrays. Inputs are never modified, every matrix element reaches the model at its own row and column, a frame whose columns differ in name or order from those at fit is refused, and the Python model equals the one trained by the core library with the same parameters.",
  ["inputs","configurations"],"all shapes, memory orders, strides, dtypes and container types for X, y, weights and evaluation data",
  "Tests use two layouts of one dataset.",
  [PYI,PYR,DA],[("_convert_input_array, convert_input_frame",PYI),("to_matrix/as_slice",PYR)],["GradientBooster.fit/predict*"])

p("C23","Python estimators survive save, pickle, clone and parameter round trips",
  "A Python model that is saved and loaded, pickled and unpickled, deep-copied, or exported as JSON and re-imported keeps its parameters, feature names, constraints, base score, evaluation history and user metadata and gives identical predictions, and can be refitted with the same result (single-precision parameters come back at single precision from a file). get_params returns exactly what was passed or later set, set_params takes effect at the next fit, cloning gives an equivalent unfitted estimator, constraints and terminate features given by name come back by name, and stored metadata comes back equal for any text.",
  ["histories","inputs","configurations"],"all constructor parameters, all training data with or without feature names, all sequences of save/load/pickle/clone/set_params/fit",
  "Tests round-trip one model through one path.",
  [PYI,PYS,PYR],[("save_booster/load_booster, __setstate__/__getstate__, get_params/set_params",PYI),("serializers",PYS)],["Python API"])

p("C24","Python introspection agrees with the model",
  "The node list, tree table, text dump, leaf indices, feature importances, partial dependence and contributions returned by the Python package describe the model that predicts: names refer to the right columns, split values, children, gains, covers and weights equal those in the JSON dump, every tree and node is present exactly once, and predictions recomputed from them equal the predictions. Results selected by feature name and by feature index coincide.",
  ["inputs","configurations"],"all models trained with arbitrary feature names and both tree kinds, all introspection calls",
  "Tests check the node counts and a few values of one model.",
  [PYI,PYR],[("get_node_lists, trees_to_dataframe, text_dump, calculate_feature_importance, partial_dependence",PYI)],["Python API"])

p("C25","A booster's results depend only on its parameters and last fit",
  "In any sequence of operations on one booster (fitting on different data with or without evaluation sets, changing parameters, changing the prediction iteration, predicting, explaining, dumping, saving, loading, adding metadata, failed fits), each result equals that of a fresh booster with the same current parameters on which only the last successful fit was performed. Read-only operations change nothing, a refit discards all trees, evaluation history, best and prediction iteration of the earlier fit, and metadata is kept until overwritten.",
  ["histories"],"all operation sequences over one booster object",
  "Tests perform at most one fit and one predict per booster.",
  [GB],[("reset, fit_trees",GB),("setters, insert_metadata/get_metadata",GB)],["all public booster methods"])

p("C26","Every parameter given to a booster is the one used",
  "A value passed for any parameter, through the constructor, a setter, or the Python keyword, is the value stored for that parameter and no other, is what the model dump reports, and is what training uses; unspecified parameters have their documented defaults. Python names map one-to-one to the core parameters, including enumerated strings, constraint dictionaries keyed by name or index, and terminate sets. (The prediction iteration, which the core counts from zero in its setter, is not a parameter in this sense.)",
  ["configurations","inputs"],"all parameters and all values of each, alone and in combination",
  "Tests set a few parameters; a swap of two numeric parameters of equal default would go unnoticed.",
  [GB,PYR,PYI],[("new, set_*",GB),("PyO3 constructor and setters",PYR),("__init__/_set_booster",PYI)],["json_dump","get_params"])

p("C27","Imported XGBoost models predict what XGBoost predicts",
  "A gradient boosted tree model trained by XGBoost with the squared error or logistic objective, given as a Booster or a scikit-learn wrapper, with or without feature names, grown depth-wise or loss-guided, imports as a booster that has the same trees: every record of single-precision values, missing ones included, reaches the same leaf of every tree, and its prediction equals the XGBoost margin up to single precision, whatever the base score. Shapley and Average contributions and feature importances of the imported model equal those XGBoost computes (exact and approximate contributions, get_score) up to the precision of its dump, feature names are taken over, and the imported model can be pickled.",
  ["inputs","configurations"],"all XGBoost gbtree models of the two objectives and all records of single-precision values",
  "The tests import two models trained on one fixture and compare predictions on that fixture.",
  [PYI],[("_from_xgboost_model, _xgboost_tree_to_nodes, Node._from_xgboost_node",PYI)],["_from_xgboost_model","predict","predict_leaf_indices","predict_contributions","calculate_feature_importance"])

p("C28","Data containers return exactly the elements stored in them",
  "For every shape, the column-major Matrix built over a slice shows at row i and column j (through get, get_row, get_row_iter, get_col, get_col_slice and its text form) the element of the slice at j*rows+i, and its index lists all rows in order. A RowMajorMatrix holds its rows in order after any sequence of appended blocks of rows, with the row and column counts to match. A JaggedMatrix built from vectors gives back each of them, empty ones included, its element and column counts are the number of elements and of vectors, and writing through a column changes that column only; the cut points produced by binning form such a matrix. Row-major and jagged matrices of finite numbers read back from their JSON form are unchanged.",
  ["inputs","histories"],"all shapes (single rows and columns, empty jagged columns), all elements, and all sequences of appends and writes",
  "Tests index a handful of elements of two small matrices.",
  [DA,BI],[("Matrix, RowMajorMatrix, JaggedMatrix",DA),("cut points as JaggedMatrix",BI)],["forust_ml::data"])

p("C29","Public numeric and partitioning helpers compute what they document",
  "For all arguments within their documented domain: percentiles returns, one per level and in order, the smallest value whose share of the sample weight reaches the level (the minimum for 0, the maximum for 1); map_bin returns the number of cut points not above a value and 0 for missing or NaN; pivot_on_split and pivot_on_split_exclude_missing permute the record indices so that missing, left and right records are contiguous and return where each part starts (given at least one record on the right); fast_sum, fast_f64_sum and naive_sum equal the sum up to rounding of their precision; l1_regularization, weight, constrained_weight, gain and gain_given_weight equal their formulas; between, bound_to_parent (the child nearer to the parent's weight, and only that, moves to it when the parent lies outside) and cull_gain (a constrained split with equal or wrongly ordered weights is dropped) follow their comments; odds is the logistic function; is_missing, missing_compare, precision_round, the text formatters and the validate functions agree with their definitions.",
  ["inputs"],"all argument values, including ties, zero weights, infinities, NaN where allowed, lengths around the summation block size, and bin numbers up to 65535",
  "Tests call each helper on one or two literal lists.",
  [UT],[("percentiles, map_bin, pivot_on_split, pivot_on_split_exclude_missing, fast_sum, fast_f64_sum, weight, gain, bound_to_parent, cull_gain, validate_*",UT)],["forust_ml::utils"])

p("C30","A tree of a model used on its own agrees with that tree",
  "Every public function of a single tree taken from a model describes that tree as the dump shows it: batch prediction with and without parallelism, prediction of one row slice and leaf indices equal routing the records; the average leaf weights it reports for its nodes are the cover-weighted averages of the leaves below, whether asked for one node or all; its contribution functions, for a row or a batch, give the documented contributions of that tree and add to what the output already holds; its partial dependence is its cover-weighted expectation; and its importance functions add exactly its splits to the statistics passed in.",
  ["inputs","configurations"],"all trees of all trained and loaded models, both tree kinds, all records",
  "Tests call these functions on one fitted tree or not at all; several are not used by the booster itself, so nothing else exercises them.",
  [TR,ND,PD,SH],[("Tree::predict, predict_row_from_row_slice, predict_leaf_indices, distribute_leaf_weights, get_average_leaf_weights, predict_contributions_*, value_partial_dependence, calculate_importance_*",TR)],["forust_ml::tree::Tree"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
