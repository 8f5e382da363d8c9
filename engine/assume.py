"""What the comparison may assume about the arguments of a function: the documented preconditions of the
crate (equal lengths of parallel slices, well-formed matrices, validated parameters)."""
import re
from terms import *

# parameters (by number) whose slices have the same length
LENS = [(r'(LogLoss|SquaredLoss)::calc_(grad_hess|loss|init)$', 'all'), (r'\w+Metric::calculate_metric$', 'all'),
        (r'(log_loss|roc_auc_score|root_mean_squared_error|root_mean_squared_log_error)$', 'all'),
        (r'(Goss|Random)Sampler::sample$|GradientBooster::sample_index$', (3, 4, 5)),
        (r'GradientBooster::fit$', (3, 4)), (r'GradientBooster::fit_trees$', (2, 3)), (r'Tree::fit$', (6, 7)),
        (r'percentiles(_or_value)?$', (1, 2)), (r'create_feature_histogram$', (3, 4, 5)), (r'HistogramMatrix::new$', (3, 4))]

# float parameters that validate_parameters has checked (fields of the booster, of the samplers and of the splitters)
CONFIG = {'learning_rate', 'l1', 'l2', 'gamma', 'max_delta_step', 'min_leaf_weight', 'subsample', 'top_rate', 'other_rate', 'colsample_bytree'}
GETTERS = {'Splitter::get_' + n for n in CONFIG}

FACTS = {'constrained_weight': lambda p: [(le('F', p(6), p(7)), True)]}


def P(i): return param('a%d' % i)


def slice_params(f):
    out = []
    for i in range(1, f.body['argc'] + 1):
        t = f.body['locals'][i]['ty']
        if t.get('k') == 'ref': t = t['t']
        if t.get('k') == 'slice' or (t.get('k') == 'adt' and t['p'].endswith('vec::Vec')): out.append(i)
    return out


def matrix_params(f):
    out = []
    for i in range(1, f.body['argc'] + 1):
        t = f.body['locals'][i]['ty']
        if t.get('k') == 'ref': t = t['t']
        if t.get('k') == 'adt' and t['p'].endswith('data::Matrix'): out.append(i)
    return out


def rewriting(k, f):
    """{term: term} that holds under the preconditions of f"""
    m = {}
    for pat, ps in LENS:
        if re.match(pat, k):
            if ps == 'all': ps = slice_params(f)
            for i in ps[1:]: m[len_(P(i))] = len_(P(ps[0]))
    if not k.startswith('Matrix::'):
        for i in matrix_params(f):
            x = P(i); i_ = fresh('b')
            rows = field(x, 'rows')
            m[field(x, 'index')] = build([i_], rows, i_)
            m[len_(field(x, 'data'))] = mul(rows, field(x, 'cols'))
    return m


# contributions have one column per feature and one more for the bias: a split feature is never the last column
BELOW = [(r'Tree::predict_contributions_row_\w+$', 'split_feature', lambda: sub(len_(P(3)), ONE))]
BOUND = {}


def bounds(k):
    BOUND.clear(); NUMBERS.clear()
    NUMBERS.update(P(i) for i in LIMITS.get(k, ()))
    for pat, f, t in BELOW:
        if re.match(pat, k): BOUND[f] = t()


# functions that recurse into disjoint subtrees: {key: position of the state that is handed from call to call}
# (each call touches the entries of its own subtree only, or adds to a sum)
COMMUTE = {'MissingBranchSplitter::update_average_missing_nodes': 0, 'Tree::distribute_node_leaf_weights': 2,
           'Tree::calc_feature_node_stats': 3, 'tree_shap': 2}


def facts(k): return FACTS[k](P) if k in FACTS else []


# parameters that hold no NaN: range limits are constants at every call, cut points come from percentiles of the values present
LIMITS = {'validate_float_parameter': (2, 3), 'map_bin': (1,)}
NUMBERS = set()


ON = [True]      # off while a function that validates its input is compared


def nonnan(t):
    if t in NUMBERS or t.op == 'idx' and t.a[0] in NUMBERS: return True
    if not ON[0]: return False
    if t.op == 'f':
        if t.a[0] == 'split_gain':       # best_feature_split turns NaN into zero
            x = t.a[1]
            while x.op in ('f', 'as'): x = x.a[1]
            return x.op == 'call' and x.a[0] == 'Splitter::best_feature_split'
        return t.a[0] in CONFIG
    if t.op == 'call': return t.a[0] in GETTERS or t.a[0] in ('gen_range', 'gen', 'gen_f32')
    if t.op == 'poly':           # a quotient of counts is a number: no such loop body runs over an empty range
        return all(x.op == 'len' or (x.op == 'call' and x.a[0] == 'trunc') or nonnan(x) for m, _ in t.a[0] for x, _ in m)
    return False
