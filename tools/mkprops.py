#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
GB='src/gradientbooster.rs'; SP='src/splitter.rs'; TR='src/tree.rs'; UT='src/utils.rs'; ND='src/node.rs'; PY='py-forust/forust/__init__.py'; PL='py-forust/src/lib.rs'
p('C01','Every training option reaches exactly the behaviour it names',
  "Every option a user passes when constructing a booster, from Rust (constructor or builder setters) or from Python, configures exactly the behaviour documented for that option and no other. Options with the same type (for example the l1 and l2 penalties, the two GOSS rates, the learning rate and the minimum leaf weight) are never exchanged, dropped, rescaled or replaced by a constant anywhere between the public constructor and the code that uses them. Option names given as strings (objective, metric, grow policy, sampling, missing-node treatment, contribution and importance methods) select the variant they name, and unknown names are rejected.",
  ['configurations'],'for all combinations of option values and both language front ends',
  'tests construct boosters with a few settings, mostly defaults, and compare one aggregate result; most options are never varied, and a swap of two equal defaults is invisible',
  [GB,SP,PL,PY],[('GradientBooster::new and set_* builders',GB),('splitter construction from self in fit',GB),('Splitter getters',SP),('#[pymethods] new / get_params',PL),('GradientBooster.__init__',PY)],
  observe=['GradientBooster::new','GradientBooster::fit','forust.GradientBooster.__init__'])
p('C02','Parallel and sequential execution give the same result under any schedule',
  "Predictions, contributions, partial dependence and every histogram used in training do not depend on how the work is scheduled over threads. Asking for parallel execution gives the same values as asking for sequential execution. No result is accumulated in an order chosen by the thread scheduler, and no two parallel tasks write the same location.",
  ['schedules','inputs'],'for all thread counts and interleavings, all data, all models',
  'a test run samples one schedule on one machine; order-dependent floating point sums differ only in the last digits and only sometimes',
  [TR,GB,'src/histogram.rs','src/binning.rs'],[('predict_parallel / predict_single_threaded',TR),('predict_contributions* parallel arms',GB),('HistogramMatrix::new parallel arms','src/histogram.rs')],
  observe=['GradientBooster::predict','GradientBooster::predict_contributions'])
p('C03','Training is a deterministic function of data, parameters and seed',
  "Fitting twice with the same data, parameters and seed gives the same model. All randomness used in training comes from a generator seeded only with the user's seed and advanced over the whole fit. Nothing that varies between runs (system entropy, time, addresses, hash-map iteration order, thread identity) influences a fitted model, a prediction or an importance.",
  ['inputs','histories','configurations'],'for all data, parameters and seeds, all repeated runs',
  'tests compare two runs at most, and a nondeterministic source may agree by chance or only act for options the tests leave off',
  [GB,'src/sampler.rs'],[('StdRng::seed_from_u64(self.seed) in fit_trees',GB),('samplers take the generator','src/sampler.rs')],
  observe=['GradientBooster::fit'])
p('C04','Refitting is independent of earlier fits',
  "Fitting a booster that was already fitted or loaded gives the same trees, history, best iteration and predictions as fitting a fresh booster with the same parameters. No tree, evaluation record, best iteration or prediction cut-off from an earlier fit survives into the new model.",
  ['histories'],'for all sequences of fit / set prediction iteration / load / fit calls',
  'the tests fit each booster object once, or twice with identical inputs, without early stopping in between',
  [GB],[('reset called from fit',GB)],observe=['GradientBooster::fit'])
p('C05','Invalid input is rejected before it can change the model',
  "A fit with a NaN in the target, or a NaN or negative sample weight, in the training data or in any evaluation set, is rejected with an error. Numeric parameters documented as non-negative are rejected at construction when NaN or negative. A fit rejected for its targets or weights leaves the booster exactly as it was, and valid input is never rejected by these checks.",
  ['inputs','configurations'],'for all targets, weights, evaluation sets and parameter values',
  'tests try a handful of invalid values at a handful of positions',
  [GB,UT],[('validate_parameters',GB),('validate_* helpers',UT),('fit entry validation',GB)],observe=['GradientBooster::fit','GradientBooster::new'])
p('C06','A saved or pickled model is restored completely',
  "Saving a booster to a file, a JSON string or a Python pickle and loading it back restores every parameter, every tree and every fitted attribute, so that all predictions and later fits are unchanged. This includes a NaN missing value, the evaluation history, the best iteration and the prediction cut-off. Documents written before an optional field existed load with that field's documented default.",
  ['inputs','histories'],'for all fitted and unfitted models',
  'tests round-trip one or two models, with most fields at their defaults, and compare predictions only',
  [GB,ND,TR,PY],[('serde derives and field attributes',GB),('load_booster, __setstate__',PY)],observe=['GradientBooster::save_booster','GradientBooster::load_booster','forust.GradientBooster.load_booster'])
p('C07','Every output routes a row through a tree in the same way',
  "Predictions, leaf indices, every contribution method, Shapley values and partial dependence all send a row down the same branch at every node. A value equal to the model's missing marker (or NaN) follows the missing branch, a value strictly below the split value follows the left branch, and any other value follows the right branch. The value tested is that of the node's own split feature in that row.",
  ['inputs'],'for all fitted trees, rows, and missing markers',
  'tests compare predictions and contributions on one data set where few values tie with a split value or use a non-default missing marker',
  [TR,ND,'src/shapley.rs','src/partial_dependence.rs'],[('Node::get_child_idx',ND),('predict_* row walks',TR),('get_hot_cold_children','src/shapley.rs'),('tree_partial_dependence','src/partial_dependence.rs')],
  observe=['GradientBooster::predict','GradientBooster::predict_leaf_indices','GradientBooster::predict_contributions'])
p('C08','The training partition agrees with prediction-time routing',
  "During training a row is assigned to the child that prediction would send it to: bins are delimited so that bin order agrees with value order, missing values have a bin of their own, and the rows of a node are divided among its children by exactly the comparison used at prediction. When a node is split every one of its rows lands in exactly one child.",
  ['inputs'],'for all feature values, including values tied with cut points and missing values, all split points',
  'tests check the partition on small hand-written vectors and one data set',
  ['src/binning.rs',UT,SP],[('map_bin, bin_matrix_from_cuts','src/binning.rs'),('pivot_on_split, pivot_on_split_exclude_missing, missing_compare',UT),('cut value and bin of a candidate split',SP)],
  observe=['GradientBooster::fit followed by predict on the training data'])
p('C09','The prediction cut-off is honoured by every prediction output',
  "When a booster has a prediction iteration (set by early stopping or by the user) exactly that many of the first trees contribute to predictions, contributions of every method, leaf indices and partial dependence; otherwise all trees contribute. Each tree and the base score contribute exactly once.",
  ['histories','inputs'],'for all models, cut-offs and prediction methods',
  'tests use early stopping with plain prediction only',
  [GB],[('get_prediction_trees',GB)],observe=['GradientBooster::predict','GradientBooster::predict_contributions','GradientBooster::predict_leaf_indices','GradientBooster::value_partial_dependence'])
p('C10','Early stopping keeps the best iteration of the last evaluation set',
  "With early stopping the metric on the last evaluation set is compared in the metric's own direction, the best iteration and the prediction cut-off are those of the best value seen, and training stops as soon as the given number of rounds has passed without improvement. A NaN value never replaces a number, and every iteration that was trained has its row in the evaluation history, with one value per evaluation set computed from predictions that include that iteration's tree.",
  ['inputs','histories'],'for all sequences of metric values, any number of evaluation sets and patience settings',
  'tests use one data set where the metric sequence is smooth',
  [GB,'src/metric.rs'],[('fit_trees evaluation block, update_best_iteration',GB),('is_comparison_better, maximize flags','src/metric.rs')],observe=['GradientBooster::fit','evaluation_history','best_iteration'])
p('C11','Trees respect the depth and leaf limits',
  "No tree has a node deeper than the maximum depth or more leaves than the maximum number of leaves, for both growth policies and with or without a separate missing branch.",
  ['inputs','configurations'],'for all data and growth settings',
  'tests check the limit for one or two configurations',
  [TR,SP,'src/grower.rs'],[('Tree::fit growth loop',TR),('new_leaves_added',SP)],observe=['fitted trees'])
p('C12','A split is made only when it is admissible',
  "A node is split only where the split improves the objective by more than gamma and by a positive amount, both data-bearing children carry at least the minimum leaf weight, and the chosen split is the best admissible candidate over the considered features. The recorded gain and cover of a node are those of the split that was made.",
  ['inputs','configurations'],'for all data and regularisation settings',
  'tests inspect a few splits with default regularisation',
  [SP,UT,ND],[('best_feature_split, evaluate_split',SP),('gain, gain_given_weight',UT)],observe=['fitted trees'])
p('C13','Leaf values follow the regularised Newton step scaled by the learning rate',
  "The value of a leaf is the negative gradient sum, soft-thresholded by l1, divided by the hessian sum plus l2, limited to the maximum delta step when that is set, and multiplied exactly once by the learning rate in the stored tree. The gain used to rank splits is consistent with that weight.",
  ['inputs','configurations'],'for all gradient and hessian sums and all regularisation settings',
  'tests evaluate single points of the formula',
  [UT,ND,SP],[('weight, gain, l1_regularization, gain_given_weight, constrained_weight',UT),('as_node',ND)],observe=['fitted trees'])
p('C14','Monotone constraints are enforced',
  "For a feature constrained as increasing (decreasing), no split on it gives its right child a smaller (larger) value than its left child, and the values of all later descendants stay within the bounds implied by every constrained ancestor split. Features without a constraint are unrestricted.",
  ['inputs','configurations'],'for all data, constraint maps and tree shapes',
  'tests check monotonicity of the predictions on one data set',
  [SP,UT],[('constrained_weight, cull_gain',UT),('bound propagation in evaluate_split',SP)],observe=['GradientBooster::predict','value_partial_dependence'])
p('C15','Contributions add up to the prediction',
  "For the average, weight and Shapley methods the contributions of a row, including the bias column, add up to its raw prediction; for probability change they add up to the predicted probability. The bias column is the last one and every contribution is credited to the feature that was split on.",
  ['inputs'],'for all models, rows and contribution methods with an additivity guarantee',
  'tests check the sum on one data set for one model per method',
  [TR,GB,'src/shapley.rs'],[('predict_contributions_row_*',TR),('bias initialisation',GB),('tree_shap','src/shapley.rs')],observe=['GradientBooster::predict_contributions'])
p('C16','Missing values are handled as configured',
  "Without a missing branch, missing values follow the child that gives the better objective, unless missing splits are disallowed or there are none to learn from. With a missing branch, missing values go to a third child whose value follows the selected treatment (none, parent weight, average of the leaves, average of the node), which is split further only when allowed, never on a feature listed to terminate missing paths, and never when it contains no rows.",
  ['inputs','configurations'],'for all data, treatments and feature lists',
  'tests cover a few treatments on one data set',
  [SP,TR],[('MissingBranchSplitter, MissingImputerSplitter',SP),('update_average_missing_nodes',SP)],observe=['fitted trees','predictions for missing values'])
p('C17','Feature importance accounts for every split exactly once',
  "Importance visits every split of every tree once, including splits below missing branches, and credits it to the feature split on. Weight counts splits, gain and cover average the recorded gain and cover, and the total variants sum them; with normalisation the values sum to one.",
  ['inputs'],'for all models and importance methods','tests compare a few numbers on one model',
  [TR,GB],[('calc_feature_node_stats, get_node_stats, calculate_importance_*',TR),('calculate_feature_importance',GB)],observe=['GradientBooster::calculate_feature_importance'])
p('C18','Sample weights act as repetition of rows',
  "Gradient, hessian, loss, the initial base score and every metric are homogeneous in the sample weights: a row of weight k counts as k rows of weight one, and a row of weight zero does not count at all.",
  ['inputs'],'for all weights','tests compare weighted results for one weight vector',
  ['src/objective.rs','src/metric.rs',UT],[('calc_grad_hess, calc_loss, calc_init','src/objective.rs'),('metric functions','src/metric.rs')],observe=['GradientBooster::fit','metrics'])
p('C19','Objectives and metrics compute what they are named',
  "For each objective, the gradient and hessian are the first and second derivative of its loss (up to one common constant factor) and the initial score minimises the weighted loss. Each metric computes its named quantity, receives predictions on the scale it expects, and is declared to be maximised or minimised correctly; without a chosen metric the one documented for the objective is used.",
  ['inputs'],'for all targets, predictions and weights','tests check a few points',
  ['src/objective.rs','src/metric.rs'],[('LogLoss, SquaredLoss','src/objective.rs'),('metric_callables','src/metric.rs')],observe=['objective and metric functions'])
p('C20','Row and column sampling select a valid subset',
  "Random subsampling splits the rows of the tree into selected and excluded without loss or duplication. GOSS keeps the rows with the largest gradients, adds distinct rows from the rest and rescales gradient and hessian of just those rows by the same factor. Column sampling considers a duplicate-free subset of the features, and sampling never affects which rows receive predictions.",
  ['inputs','configurations'],'for all index sets, rates and generator states','tests check sample sizes for one seed',
  ['src/sampler.rs',GB],[('RandomSampler::sample, GossSampler::sample','src/sampler.rs'),('sample_index, column sampling in fit_trees',GB)],observe=['GradientBooster::fit'])
p('C21','Histograms conserve gradient, hessian and count of their rows',
  "The histogram of a node holds, per feature and bin, the gradient sum, hessian sum and cut value of exactly the rows of that node, whether it is accumulated directly or derived from the parent by subtracting its siblings. Every child receives the histogram of its own rows.",
  ['inputs'],'for all data, index sets and tree shapes','tests compare a few bins on one data set',
  ['src/histogram.rs',SP],[('create_feature_histogram, HistogramMatrix::new, from_parent_child, from_parent_two_children','src/histogram.rs'),('child histogram choice in handle_split_info',SP)],observe=['GradientBooster::fit'])
p('C22','The Python layer hands data over without rearranging it',
  "Every array given to the Python API reaches the core in the layout the core expects and every result comes back in the row and column order of the input, for pandas and numpy input of any memory order. Column names are mapped to the position they have in the training data for constraints, terminate-missing features, importances and partial dependence.",
  ['inputs'],'for all arrays, memory layouts and column names','tests use C-ordered or pandas input of a single data set',
  [PY,PL],[('convert_input_frame, convert_input_array, to_numpy, predict*, fit',PY)],observe=['forust.GradientBooster.fit','forust.GradientBooster.predict'])
p('C23','Partial dependence is the cover-weighted average over both branches',
  "The partial dependence of a feature at a value averages the trees' predictions, following the routing rule at nodes that split on the feature and weighting the branches by their recorded cover everywhere else. The branch weights at each node sum to one and the base score is included once.",
  ['inputs'],'for all trees, features and values','tests compare two points of one model',
  ['src/partial_dependence.rs',GB],[('tree_partial_dependence','src/partial_dependence.rs'),('value_partial_dependence',GB)],observe=['GradientBooster::value_partial_dependence'])
p('C24','Leaf weights distributed to inner nodes are cover-weighted averages',
  "The average value attributed to an inner node is the hessian-weighted mean of its children, missing branch included where one exists, computed bottom-up so that the root average is the mean over all leaves.",
  ['inputs'],'for all trees','tests compare against one reference model',
  [TR,SP],[('distribute_node_leaf_weights, get_average_leaf_weights',TR),('update_average_missing_nodes',SP)],observe=['average contributions','average missing treatments'])
p('C25','Children can be forced to bound their parent',
  "When requested, the values of the left and right child of every split lie on opposite sides of (or at) their parent's value, and only the child or children violating this are moved, to the parent's value.",
  ['inputs','configurations'],'for all weights of parent and children','tests evaluate a few triples',
  [UT,SP],[('bound_to_parent, between',UT),('evaluate_split',SP)],observe=['fitted trees'])
p('C26','Python parameter access, cloning and metadata are faithful',
  "get_params returns every constructor option with the value in force, set_params and a rebuild from get_params give an equivalent estimator, and metadata inserted under a key is returned unchanged under that key only, before and after saving. Every method of the Python class hands its arguments to the core unchanged.",
  ['configurations','histories'],'for all parameter values and keys','tests clone one default estimator',
  [PY,PL,GB],[('get_params / set_params / insert_metadata / get_metadata',PY),('pymethods',PL)],observe=['forust.GradientBooster.get_params','set_params','get_metadata'])
p('C27','The text and JSON dumps describe the model that predicts',
  "The text dump lists every node of every tree once with its own split feature, split value, children and leaf value, and the JSON dump is the serialised booster itself. The node lists and the data frame of the trees offered in Python hold the same nodes, each once and with its own values.",
  ['inputs'],'for all models','tests look at one dump',
  [TR,ND,GB],[('Display for Tree and Node',TR),('json_dump',GB)],observe=['text_dump','json_dump'])
p('C29','A model imported from XGBoost predicts what it predicted there',
  "A gradient boosted tree model of numerical features imported from XGBoost has every tree, in order, with every node under its own number: the same feature (by its position in the training data, whether or not the features were named), the split value XGBoost compares with, the children for lower, higher and missing values, leaf value, cover and gain. The base score is the one XGBoost adds, on the scale of the raw prediction. A scikit-learn wrapper and a plain booster are imported alike.",
  ['inputs','configurations'],'for all imported models, named or unnamed features, all tree shapes','tests import two models with named features from one data set',
  [PY],[('_from_xgboost_model, _xgboost_tree_to_nodes, Node._from_xgboost_node',PY)],observe=['forust._from_xgboost_model'])
p('C30','Candidate split points are the weighted percentiles of the observed values',
  "The candidate split points of a feature come from the non-missing values of that column only, each counted with its own sample weight. A feature with few distinct values has each of them as a candidate; otherwise there is one candidate for each of the requested number of evenly spaced percentiles, which is the smallest observed value whose share of the total weight up to and including it reaches that percentile. Candidates are ascending and free of repetitions, and every row is put in the bin its value belongs to.",
  ['inputs','configurations'],'for all columns, weights, missing markers and bin counts','tests bin a few short vectors with unit weights',
  ['src/binning.rs',UT],[('bin_matrix, percentiles_or_value','src/binning.rs'),('percentiles, map_bin',UT),('percentiles exposed to Python',PL)],observe=['percentiles','bin_matrix'])
p('C31','Every tree is fitted to the gradients at the current predictions of the model',
  "Training starts every row at the base score. The gradient and hessian used for a tree are those of the objective at the base score plus the trees of all earlier rounds, for every row, whether it was sampled or not. After each round the running predictions of the training rows and of each evaluation set are increased by exactly the prediction of the tree that is added to the model, once, so that they are the predictions the model itself makes with the trees it has. At most the requested number of trees is trained, and a tree once added is not changed.",
  ['inputs','configurations','histories'],'for all data, options and numbers of rounds','tests look at the final predictions of a few fits, where an omitted or stale update shows only as a slightly different model',
  [GB,TR],[('fit_trees, update_predictions_inplace',GB),('Tree::predict',TR),('objectives','src/objective.rs')],observe=['GradientBooster::fit'])
p('C32','The growth policy decides which node is expanded next',
  "Under the loss guided policy the next node expanded is always one of largest gain value among all open nodes; under the depth wise policy open nodes are expanded in the order in which they were created, so no node is expanded before a shallower one. Every open node is either expanded or made a leaf with its own weight, none is dropped or visited twice, and nodes are stored under the numbers their parents refer to.",
  ['inputs','configurations'],'for all data, both policies and all limits','tests compare aggregate results of a few fits, and the policies differ only when a limit cuts growth short',
  [TR,'src/grower.rs',ND],[('Tree::fit',TR),('Grower impls','src/grower.rs'),('Ord for SplittableNode',ND)],observe=['fitted trees'])
p('C28','Exact accuracy of the learned model',
  "The fitted model attains the predictive quality of reference implementations on any data set, and floating point rounding stays below a documented bound.",
  ['inputs'],'for all data sets','quality is a statistical runtime quantity',[GB],[('fit',GB)])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here,'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
