"""Which functions carry which property.  A key names a function of the crate by type and name; the patterns are
matched against the keys of the reference crate, so a function of the repository that was renamed is followed through
its callers (it is inlined there on both sides)."""
import fnmatch

WEIGHT = ['weight', 'gain', 'gain_given_weight', 'l1_regularization', 'constrained_weight', 'cull_gain', 'bound_to_parent', 'between']
SPLITTERS = ['Splitter::*', 'MissingBranchSplitter::*', 'MissingImputerSplitter::*']
EVAL = ['*::evaluate_split', 'Splitter::best_split', 'Splitter::best_feature_split']
HANDLE = ['*::handle_split_info', 'Splitter::split_node']
GETTERS = ['M*Splitter::get_*', 'MissingImputerSplitter::new']
PIVOT = ['pivot_on_split', 'pivot_on_split_exclude_missing', 'missing_compare', 'is_missing']
HIST = ['HistogramMatrix::*', 'create_feature_histogram', 'Bin::*']
NODE = ['SplittableNode::from_node_info', 'SplittableNode::new', 'SplittableNode::update_children', 'SplittableNode::as_node',
        'SplittableNode::get_split_gain', 'Node::make_parent_node']
MATRIX = ['Matrix::*', 'RowMajorMatrix::*', 'JaggedMatrix::*']
GROWER = ['BinaryHeap::*', 'VecDeque::*', 'SplittableNode::cmp', 'SplittableNode::partial_cmp', 'SplittableNode::eq']
BIN = ['bin_matrix', 'bin_matrix_from_cuts', 'percentiles_or_value', 'percentiles', 'map_bin']
FIT = ['GradientBooster::fit', 'GradientBooster::fit_trees', 'GradientBooster::fit_unweighted']
ROUTE = ['Node::get_child_idx', 'Node::has_missing_branch', 'is_missing']
TREEPRED = ['Tree::predict*', 'GradientBooster::predict', 'GradientBooster::update_predictions_inplace']
CONTRIB = ['Tree::predict_contributions*', 'GradientBooster::predict_contributions*', 'tree_shap', 'extend_path', 'unwind_path',
           'unwound_path_sum', 'get_hot_cold_children', 'predict_contributions_row_shapley', 'PathElement::*', 'PathList::*']
DISTR = ['Tree::distribute_*', 'Tree::get_average_leaf_weights']
OBJ = ['*Loss::*', 'gradient_hessian_callables', 'calc_init_callables']
MET = ['*Metric::*', 'metric_callables', 'log_loss', 'root_mean_squared*', 'trapezoid_area', 'roc_auc_score', 'is_comparison_better',
       'Metric::from_str']
PDP = ['tree_partial_dependence', 'get_node_cover', 'Tree::value_partial_dependence', 'GradientBooster::value_partial_dependence']
IMP = ['Tree::calc_feature_node_stats', 'Tree::get_node_stats', 'Tree::calculate_importance_*', 'GradientBooster::calculate_feature_importance']
SUMS = ['fast_sum', 'fast_f64_sum', 'naive_sum']
SAMPLE = ['RandomSampler::*', 'GossSampler::*', 'GradientBooster::sample_index']
IO = ['GradientBooster::save_booster', 'GradientBooster::json_dump', 'GradientBooster::from_json', 'GradientBooster::load_booster',
      'parse_missing', 'default_*']

PROPS = {
    'C01': ['GradientBooster::new', 'GradientBooster::default', 'GradientBooster::set_*', 'GradientBooster::fit', 'GradientBooster::fit_trees',
            'GradientBooster::fit_unweighted', 'GradientBooster::sample_index', 'GradientBooster::get_metric_fn', 'MissingImputerSplitter::*', 'M*Splitter::get_*',
            'RandomSampler::new', 'GossSampler::new', 'GossSampler::default', 'Metric::from_str', 'metric_callables', 'gradient_hessian_callables',
            'calc_init_callables', 'default_*', '*Loss::default_metric', 'GradientBooster::predict_contributions', 'Tree::fit',
            'Splitter::best_feature_split', 'Splitter::best_split', '*::evaluate_split', '*Sampler::sample', 'GradientBooster::calculate_feature_importance',
            'weight', 'gain', 'gain_given_weight', 'constrained_weight', 'GradientBooster::validate_parameters', 'SplittableNode::as_node', 'Tree::predict_contributions_average'],
    'C02': ['Tree::predict*', 'GradientBooster::predict*', 'GradientBooster::update_predictions_inplace', 'HistogramMatrix::*', 'bin_matrix*',
            'create_feature_histogram', 'GradientBooster::value_partial_dependence', 'GradientBooster::fit_trees', 'GradientBooster::fit', 'Splitter::*', '*::handle_split_info', 'Tree::fit',
            'fast_sum', 'fast_f64_sum', 'naive_sum', 'Matrix::*', 'RowMajorMatrix::*', 'JaggedMatrix::*', '*Loss::*', 'Tree::get_average_leaf_weights', 'Tree::distribute_*'],
    'C03': FIT + SAMPLE + ['Tree::fit', 'Splitter::*', 'BinaryHeap::*', 'VecDeque::*', 'GradientBooster::set_seed', 'SplittableNode::cmp', 'SplittableNode::partial_cmp', 'SplittableNode::eq',
                           'M*Splitter::clean_up_splits', 'M*Splitter::update_average_missing_nodes', 'bin_matrix*', 'HistogramMatrix::*', 'GradientBooster::reset',
                           'GradientBooster::calculate_feature_importance', 'GradientBooster::predict*', 'Tree::predict*', 'GradientBooster::value_partial_dependence', '*::handle_split_info'],
    'C04': FIT + ['GradientBooster::reset', 'GradientBooster::update_best_iteration', 'GradientBooster::set_prediction_iteration', 'GradientBooster::get_prediction_trees',
                  'GradientBooster::update_predictions_inplace', 'GradientBooster::default', 'GradientBooster::new'],
    'C05': FIT + ['GradientBooster::validate_parameters', 'GradientBooster::new', 'validate_*', 'GradientBooster::default', 'GradientBooster::set_*', 'percentiles', 'percentiles_or_value', 'bin_matrix', 'Metric::from_str', 'GradientBooster::reset'],
    'C06': IO + ['GradientBooster::default', 'GradientBooster::insert_metadata', 'GradientBooster::get_metadata', 'Tree::new', 'Tree::default'],
    'C07': ROUTE + TREEPRED + CONTRIB + PDP + ['GradientBooster::predict_leaf_indices', 'Tree::predict_leaf*'] + MATRIX,
    'C08': BIN + PIVOT + EVAL + HANDLE + ['Node::get_child_idx', 'Tree::fit', 'create_feature_histogram', 'HistogramMatrix::new', 'GradientBooster::fit', 'GradientBooster::fit_trees', 'f64::*', 'f32::*'] + MATRIX + NODE,
    'C09': ['GradientBooster::get_prediction_trees', 'GradientBooster::predict*', 'GradientBooster::value_partial_dependence', 'GradientBooster::set_prediction_iteration',
            'GradientBooster::update_best_iteration', 'Tree::predict*', 'Tree::value_partial_dependence', 'GradientBooster::fit_trees', 'GradientBooster::reset'],
    'C10': ['GradientBooster::fit_trees', 'GradientBooster::fit', 'GradientBooster::update_best_iteration', 'GradientBooster::update_predictions_inplace', 'GradientBooster::get_metric_fn',
            'GradientBooster::fit_unweighted', 'is_comparison_better', '*Metric::*', 'metric_callables', 'Metric::from_str', 'RowMajorMatrix::*', '*Loss::default_metric', 'GradientBooster::reset', 'GradientBooster::get_prediction_trees', 'Tree::predict*'],
    'C11': ['Tree::fit', '*::new_leaves_added', '*::handle_split_info', 'Splitter::split_node', 'Splitter::clean_up_splits', 'M*Splitter::clean_up_splits', 'GradientBooster::fit', 'GradientBooster::fit_trees'] + GROWER + NODE,
    'C12': EVAL + WEIGHT + NODE + HANDLE + ['Tree::fit', 'HistogramMatrix::*', 'create_feature_histogram', 'GradientBooster::fit', 'GradientBooster::fit_trees'] + GETTERS + GROWER + ['Tree::get_node_stats', 'Node::make_parent_node'],
    'C13': WEIGHT + EVAL + HANDLE + NODE + GETTERS + ['Tree::fit', 'GradientBooster::fit', 'GradientBooster::fit_trees', 'M*Splitter::clean_up_splits', 'M*Splitter::update_average_missing_nodes', 'fast_sum', 'fast_f64_sum'],
    'C14': WEIGHT + EVAL + HANDLE + NODE + GETTERS + ['Tree::fit', 'GradientBooster::fit', 'GradientBooster::set_monotone_constraints', 'GradientBooster::fit_trees', 'M*Splitter::clean_up_splits', 'M*Splitter::update_average_missing_nodes'],
    'C15': CONTRIB + ROUTE + DISTR + ['odds', 'GradientBooster::get_prediction_trees', 'GradientBooster::predict', 'Tree::predict*', 'get_node_cover', 'Node::make_parent_node', 'SplittableNode::as_node'] + MATRIX,
    'C16': SPLITTERS + PIVOT + NODE + ['Tree::fit', 'create_feature_histogram', 'HistogramMatrix::*', 'map_bin', 'bin_matrix*', 'Node::has_missing_branch', 'Node::get_child_idx', 'GradientBooster::fit', 'GradientBooster::fit_trees', 'Tree::distribute_*', 'GradientBooster::set_terminate_missing_features', 'GradientBooster::set_missing*', 'GradientBooster::set_allow*', 'GradientBooster::set_create*'] + WEIGHT,
    'C17': IMP + ['Node::has_missing_branch', 'Node::make_parent_node', 'SplittableNode::as_node', 'SplittableNode::update_children'],
    'C18': OBJ + MET + ['GradientBooster::fit_unweighted', 'GradientBooster::fit', 'GradientBooster::fit_trees', '*Sampler::sample', 'bin_matrix', 'percentiles*', 'create_feature_histogram'] + SUMS,
    'C19': OBJ + MET + ['GradientBooster::get_metric_fn', 'GradientBooster::fit_trees', 'GradientBooster::fit'] + SUMS,
    'C20': SAMPLE + ['GradientBooster::fit_trees', 'GradientBooster::update_predictions_inplace', 'Tree::fit', 'Splitter::best_split', 'Splitter::best_feature_split', 'HistogramMatrix::*', '*::handle_split_info', 'create_feature_histogram', 'GradientBooster::fit', 'GradientBooster::set_subsample', 'GradientBooster::set_colsample*', 'GradientBooster::set_*_rate'],
    'C21': HIST + HANDLE + PIVOT + ['Tree::fit', 'fast_sum', 'fast_f64_sum', 'GradientBooster::fit_trees', 'GradientBooster::fit', 'Splitter::best_feature_split', 'Splitter::best_split', '*::evaluate_split'] + MATRIX + NODE + BIN,
    'C22': MATRIX + ['GradientBooster::predict*', 'Tree::predict*', 'GradientBooster::calculate_feature_importance', 'GradientBooster::value_partial_dependence', 'percentiles'],
    'C23': PDP + ROUTE + ['GradientBooster::get_prediction_trees'],
    'C24': DISTR + ['M*Splitter::update_average_missing_nodes', 'M*Splitter::clean_up_splits', 'Node::has_missing_branch', 'Tree::predict_contributions_average', 'Tree::predict_contributions_row_average', 'GradientBooster::predict_contributions_average', 'Node::make_parent_node', 'SplittableNode::as_node', 'SplittableNode::update_children', 'Tree::fit'],
    'C25': ['bound_to_parent', 'between', '*::evaluate_split', 'Splitter::best_feature_split', 'Splitter::best_split', 'M*Splitter::get_*', 'GradientBooster::fit', 'constrained_weight'] + NODE + HANDLE,
    'C26': ['GradientBooster::insert_metadata', 'GradientBooster::get_metadata', 'GradientBooster::new', 'GradientBooster::set_*', 'GradientBooster::default'] + IO,
    'C29': ['GradientBooster::from_json', 'GradientBooster::json_dump', 'parse_missing', 'default_*'],
    'C30': BIN + ['is_missing', 'GradientBooster::fit', 'GradientBooster::fit_unweighted', 'GradientBooster::set_nbins', 'fast_sum', 'JaggedMatrix::*', 'Matrix::get_col*', 'Matrix::new', 'f64::from_*', 'f32::from_*'] + ['GradientBooster::new'],
    'C31': FIT + OBJ + TREEPRED + ['GradientBooster::get_prediction_trees', 'Tree::fit', 'Tree::new', 'GradientBooster::sample_index', 'GradientBooster::reset', 'GradientBooster::set_iterations', 'GradientBooster::set_base_score',
                                   'GradientBooster::new', 'SplittableNode::as_node', '*Sampler::sample', 'M*Splitter::clean_up_splits'],
    'C32': ['Tree::fit'] + GROWER + NODE + HANDLE + ['*::new_leaves_added', 'GradientBooster::fit', 'GradientBooster::fit_trees', 'GradientBooster::set_grow_policy', 'GradientBooster::new', 'Tree::new', 'Tree::default'],
    'C27': ['Tree::fmt', 'Node::fmt', 'GradientBooster::json_dump', 'items_to_strings', 'fmt_vec_output', 'SplittableNode::as_node', 'Node::make_parent_node', 'SplittableNode::update_children'],
}

NEW = ['GradientBooster::new', 'GradientBooster::default']
for _p, _o in (('C03', ()), ('C11', ('max_depth', 'max_leaves', 'grow_policy')), ('C12', ('gamma', 'min_leaf_weight')), ('C13', ('l1', 'l2', 'max_delta_step', 'learning_rate')),
               ('C14', ()), ('C16', ()), ('C20', ('sample_method',)), ('C25', ('force_children_to_bound_parent',)), ('C10', ('early_stopping_rounds', 'evaluation_metric'))):
    PROPS[_p] = PROPS[_p] + NEW + ['GradientBooster::set_' + o for o in _o]      # the options the property speaks of

for _p, _o in (('C01', BIN + HANDLE + SPLITTERS + WEIGHT + GROWER + ['is_missing', 'GradientBooster::get_prediction_trees']), ('C08', HIST), ('C12', SUMS), ('C17', NODE),
               ('C18', ['Tree::fit', 'HistogramMatrix::new', 'GradientBooster::sample_index']), ('C24', ['predict_contributions_row_shapley'])):
    PROPS[_p] = PROPS[_p] + _o                            # what else it depends on

PY = 'py:GradientBooster.'
PYPROPS = {
    'C01': ['__init__', 'fit', 'predict_contributions', 'calculate_feature_importance', 'predict', 'set_params', 'load_booster', 'feature_importances_'],
    'C02': ['predict', 'predict_contributions', 'predict_leaf_indices'],
    'C03': ['__init__', 'fit'],
    'C04': ['fit', 'set_prediction_iteration'],
    'C05': ['fit', '__init__'],
    'C06': ['load_booster', 'save_booster', 'json_dump', '__getstate__', '__setstate__', 'insert_metadata', 'get_metadata', 'fit', '__init__', 'py:*Serializer.*', 'py:NumpyData.*', 'get_params'],
    'C07': ['predict', 'predict_leaf_indices', 'predict_contributions', 'partial_dependence'],
    'C09': ['set_prediction_iteration', 'prediction_iteration', 'predict', 'predict_leaf_indices', 'predict_contributions', 'number_of_trees', 'best_iteration'],
    'C10': ['get_evaluation_history', 'best_iteration', 'get_best_iteration', 'fit', '__init__', 'prediction_iteration'],
    'C14': ['fit', '__init__', 'load_booster'],
    'C15': ['predict_contributions'],
    'C16': ['fit', '__init__', 'load_booster'],
    'C17': ['calculate_feature_importance', 'feature_importances_'],
    'C18': ['fit'],
    'C20': ['__init__'],
    'C22': ['fit', 'predict', 'predict_contributions', 'predict_leaf_indices', 'partial_dependence', 'calculate_feature_importance', 'feature_importances_', 'get_evaluation_history', 'load_booster'],
    'C23': ['partial_dependence'],
    'C26': ['get_params', 'set_params', '__init__', 'insert_metadata', 'get_metadata', 'load_booster', '__getstate__', '__setstate__', 'fit', 'py:ObjectSerializer.*', 'py:ScalerSerializer.*', 'py:Numpy*'],
    'C27': ['text_dump', 'json_dump', 'get_node_lists', 'trees_to_dataframe', 'py:Node.fields'],
    'C29': ['py:_from_xgboost_model', 'py:_xgboost_tree_to_nodes', 'py:Node.*', '__init__', 'json_dump'],
    'C31': ['fit'],
    'C32': ['__init__'],
}

PYPROPS['C26'] = PYPROPS['C26'] + ['*']                    # every method hands its arguments on
PYPROPS['C09'] = PYPROPS['C09'] + ['partial_dependence']
PYPROPS['C19'] = ['__init__']
GB = 'GradientBooster::'
BINDPROPS = {
    'C01': [GB + 'new', GB + 'fit', GB + 'get_params', GB + 'set_*', GB + 'predict_contributions', GB + 'calculate_feature_importance', 'int_map*', 'to_value_error'],
    'C02': [GB + 'predict*'],
    'C04': [GB + 'fit', GB + 'set_prediction_iteration'],
    'C05': [GB + 'fit', GB + 'new', 'to_value_error'],
    'C06': [GB + 'save_booster', GB + 'json_dump', GB + 'load_booster', GB + 'from_json', GB + 'get_params', GB + '*_metadata', 'to_value_error'],
    'C07': [GB + 'predict*', GB + 'value_partial_dependence'],
    'C09': [GB + 'predict*', GB + '*prediction_iteration', GB + 'number_of_trees', GB + 'best_iteration', GB + 'value_partial_dependence'],
    'C10': [GB + 'get_evaluation_history', GB + 'best_iteration', GB + 'fit', GB + 'prediction_iteration', GB + 'new'],
    'C14': [GB + 'set_monotone_constraints', 'int_map*', GB + 'new', GB + 'get_params'],
    'C15': [GB + 'predict_contributions', GB + 'predict'],
    'C16': [GB + 'set_terminate_missing_features', GB + 'new', GB + 'get_params'],
    'C17': [GB + 'calculate_feature_importance'],
    'C18': [GB + 'fit', 'percentiles'],
    'C22': [GB + 'fit', GB + 'predict*', GB + 'get_evaluation_history', GB + 'value_partial_dependence', GB + 'calculate_feature_importance', 'percentiles', GB + 'set_*'],
    'C23': [GB + 'value_partial_dependence'],
    'C26': [GB + 'get_params', GB + 'new', GB + '*_metadata', GB + 'set_*', 'int_map*', 'to_value_error', GB + 'base_score'],
    'C27': [GB + 'text_dump', GB + 'json_dump', 'print_matrix'],
    'C29': [GB + 'from_json', GB + 'json_dump', 'to_value_error'],
    'C30': ['percentiles', GB + 'new'],
    'C31': [GB + 'fit', GB + 'new'],
    'C32': [GB + 'new'],
}


BINDPROPS['C26'] = BINDPROPS['C26'] + [GB + '*']
for _p in ('C03', 'C19', 'C11', 'C12', 'C13', 'C20', 'C25'):
    BINDPROPS[_p] = BINDPROPS.get(_p, []) + [GB + 'new']
    PYPROPS[_p] = PYPROPS.get(_p, []) + ['__init__']


def bindfunctions(prop, keys):
    out = set()
    for pat in BINDPROPS.get(prop, []): out |= set(fnmatch.filter(keys, pat))
    return sorted(out)


def pyfunctions(prop, keys):
    out = set()
    for pat in PYPROPS.get(prop, []): out |= set(fnmatch.filter(keys, pat if pat.startswith('py:') else PY + pat))
    return sorted(out)


def functions(prop, keys):
    out = set()
    for pat in PROPS[prop]:
        hit = fnmatch.filter(keys, pat)
        out |= set(hit)
    return sorted(out)


def properties_of(key):
    return [p for p, pats in PROPS.items() if any(fnmatch.fnmatchcase(key, x) for x in pats)]
