"""Behaviour-preserving rewrites of whole Python functions: the comparison must
not call any of them different.  python3 tools/pyrefactors.py [name...]
Each entry: (function to replace or None, new source, helper source placed
before it in the same scope)."""
import ast, os, shutil, subprocess, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = '/repo/py-forust/forust'
R = {}
R['fit_eval_helper_fn'] = ('GradientBooster.fit', '''
def fit(self, X, y, sample_weight=None, evaluation_data=None):
    features_, flat_data, rows, cols = _convert_input_frame(X)
    self.n_features_ = cols
    self._set_metadata_attributes("n_features_", cols)
    if features_:
        self.feature_names_in_ = features_
        self._set_metadata_attributes("feature_names_in_", features_)
    y_ = _convert_input_array(y)
    if sample_weight is None:
        sample_weight_ = np.ones(y_.shape, dtype="float64")
    else:
        sample_weight_ = _convert_input_array(sample_weight)
    self.booster.monotone_constraints = self._standardize_monotonicity_map(X)
    self.booster.terminate_missing_features = (
        self._standardize_terminate_missing_features(X)
    )
    evaluation_data_ = self._standardize_evaluation_data(evaluation_data)
    self.booster.fit(
        flat_data=flat_data, rows=rows, cols=cols, y=y_,
        sample_weight=sample_weight_, evaluation_data=evaluation_data_,
    )
    self.base_score = self.booster.base_score
    return self
''', '''
def _standardize_evaluation_data(self, evaluation_data):
    if evaluation_data is None:
        return None
    result = []
    for eval_ in evaluation_data:
        if len(eval_) == 3:
            eval_X, eval_y, eval_w = eval_
            eval_w_ = _convert_input_array(eval_w)
        else:
            eval_X, eval_y = eval_
            eval_w_ = np.ones(eval_X.shape[0], dtype="float64")
        names, flat, n_rows, n_cols = _convert_input_frame(eval_X)
        self._validate_features(names)
        result.append((flat, n_rows, n_cols, _convert_input_array(eval_y), eval_w_))
    if len(result) > 1:
        warnings.warn("Multiple evaluation datasets passed, only the last one will be used to determine early stopping.")
    return result
''')
R['fit_eval_index'] = ('GradientBooster.fit', '''
def fit(self, X, y, sample_weight=None, evaluation_data=None):
    features_, flat_data, rows, cols = _convert_input_frame(X)
    self.n_features_ = cols
    self._set_metadata_attributes("n_features_", self.n_features_)
    if len(features_) > 0:
        self.feature_names_in_ = features_
        self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
    y_ = _convert_input_array(y)
    weights = np.ones(y_.shape, dtype="float64") if sample_weight is None else sample_weight
    sample_weight_ = _convert_input_array(weights)
    self.booster.monotone_constraints = self._standardize_monotonicity_map(X)
    self.booster.terminate_missing_features = self._standardize_terminate_missing_features(X)
    evaluation_data_ = None
    if evaluation_data is not None:
        evaluation_data_ = []
        for eval_ in evaluation_data:
            has_weight = len(eval_) == 3
            if has_weight:
                eval_X, eval_y, eval_w = eval_
            else:
                eval_X, eval_y = eval_
            eval_w_ = _convert_input_array(eval_w) if has_weight else np.ones(eval_X.shape[0], dtype="float64")
            eval_features, eval_flat_data, eval_rows, eval_cols = _convert_input_frame(eval_X)
            self._validate_features(eval_features)
            eval_y_ = _convert_input_array(eval_y)
            entry = (eval_flat_data, eval_rows, eval_cols, eval_y_, eval_w_)
            evaluation_data_.append(entry)
        if len(evaluation_data_) >= 2:
            warnings.warn("Multiple evaluation datasets passed, only the last one will be used to determine early stopping.")
    self.booster.fit(flat_data=flat_data, rows=rows, cols=cols, y=y_, sample_weight=sample_weight_, evaluation_data=evaluation_data_)
    self.base_score = self.booster.base_score
    return self
''', '')
R['fit_kwargs'] = ('GradientBooster.fit', '''
def fit(self, X, y, sample_weight=None, evaluation_data=None):
    features_, flat_data, rows, cols = _convert_input_frame(X)
    self.n_features_ = cols
    self._set_metadata_attributes("n_features_", self.n_features_)
    if len(features_) != 0:
        self.feature_names_in_ = features_
        self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
    y_ = _convert_input_array(y)
    if sample_weight is None:
        sample_weight = np.ones(y_.shape, dtype="float64")
    booster = self.booster
    booster.monotone_constraints = self._standardize_monotonicity_map(X)
    booster.terminate_missing_features = self._standardize_terminate_missing_features(X)
    fit_args = dict(flat_data=flat_data, rows=rows, cols=cols, y=y_, sample_weight=_convert_input_array(sample_weight))
    if evaluation_data is None:
        evaluation_data_ = None
    else:
        evaluation_data_ = []
        for eval_ in evaluation_data:
            if len(eval_) != 3:
                eval_X, eval_y = eval_
                eval_w_ = np.ones(eval_X.shape[0], dtype="float64")
            else:
                eval_X, eval_y, eval_w = eval_
                eval_w_ = _convert_input_array(eval_w)
            features_, eval_flat_data, eval_rows, eval_cols = _convert_input_frame(eval_X)
            self._validate_features(features_)
            evaluation_data_.append((eval_flat_data, eval_rows, eval_cols, _convert_input_array(eval_y), eval_w_))
        if len(evaluation_data_) > 1:
            warnings.warn("Multiple evaluation datasets passed, only the last one will be used to determine early stopping.")
    booster.fit(evaluation_data=evaluation_data_, **fit_args)
    self.base_score = booster.base_score
    return self
''', '')
R['validate_guard'] = ('GradientBooster._validate_features', '''
def _validate_features(self, features):
    if len(features) == 0:
        return
    if not hasattr(self, "feature_names_in_"):
        return
    if features == self.feature_names_in_:
        return
    raise ValueError("Columns mismatch between data passed, and data used at fit.")
''', '')
R['validate_getattr'] = ('GradientBooster._validate_features', '''
def _validate_features(self, features):
    expected = getattr(self, "feature_names_in_", None)
    if expected is None or len(features) == 0:
        return
    if features != expected:
        raise ValueError("Columns mismatch between data passed, and data used at fit.")
''', '')
R['predict_prep'] = ('GradientBooster.predict', '''
def predict(self, X, parallel=None):
    flat_data, rows, cols = self._prepare(X)
    return self.booster.predict(
        flat_data=flat_data, rows=rows, cols=cols,
        parallel=self._resolve_parallel(parallel),
    )
''', '''
def _prepare(self, X):
    features, flat_data, rows, cols = _convert_input_frame(X)
    self._validate_features(features)
    return flat_data, rows, cols

def _resolve_parallel(self, parallel):
    if parallel is None:
        return self.parallel
    return parallel
''')
R['contrib_prep'] = ('GradientBooster.predict_contributions', '''
def predict_contributions(self, X, method="Average", parallel=None):
    features_, flat_data, rows, cols = _convert_input_frame(X)
    self._validate_features(features_)
    if parallel is None:
        parallel = self.parallel
    contributions = self.booster.predict_contributions(
        flat_data=flat_data, rows=rows, cols=cols,
        method=CONTRIBUTION_METHODS.get(method, method), parallel=parallel,
    )
    n_columns = cols + 1
    return contributions.reshape(rows, n_columns)
''', '')
R['leaf_indices'] = ('GradientBooster.predict_leaf_indices', '''
def predict_leaf_indices(self, X):
    features_, flat_data, rows, cols = _convert_input_frame(X)
    self._validate_features(features_)
    leaf_indices = self.booster.predict_leaf_indices(flat_data=flat_data, rows=rows, cols=cols)
    n_trees = self.prediction_iteration
    if n_trees is None:
        n_trees = self.number_of_trees
    return np.reshape(leaf_indices, (rows, n_trees), order="F")
''', '')
R['pd_helpers'] = ('GradientBooster.partial_dependence', '''
def partial_dependence(self, X, feature, samples=100, exclude_missing=True, percentile_bounds=(0.2, 0.98)):
    if isinstance(feature, str):
        feature_idx, values = self._resolve_named(X, feature)
    elif isinstance(feature, int):
        feature_idx = feature
        values = X.iloc[:, feature].to_numpy() if isinstance(X, pd.DataFrame) else X[:, feature]
    else:
        raise ValueError(f"The parameter `feature` must be a string, or an int, however an object of type {type(feature)} was passed.")
    min_p, max_p = percentile_bounds
    values = values[~(np.isnan(values) | (values == self.missing))]
    if samples is None:
        search_values = np.sort(np.unique(values))
    else:
        search_values = np.quantile(values, np.linspace(min_p, max_p, num=samples))
    if not exclude_missing:
        search_values = np.append([self.missing], search_values)
    return np.array([(v, self.booster.value_partial_dependence(feature=feature_idx, value=v)) for v in search_values])
''', '''
def _resolve_named(self, X, feature):
    if not isinstance(X, pd.DataFrame):
        raise ValueError("If `feature` is a string, then the object passed as `X` must be a pandas DataFrame.")
    values = X.loc[:, feature].to_numpy()
    if hasattr(self, "feature_names_in_"):
        names = self.feature_names_in_
    else:
        warnings.warn(
            "No feature names were provided at fit, but feature was a string, attempting to "
            + "determine feature index from DataFrame Column, "
            + "ensure columns are the same order as data passed when fit."
        )
        names = X.columns
    [feature_idx] = [i for i, v in enumerate(names) if v == feature]
    return feature_idx, values
''')
R['pd_mask_steps'] = ('GradientBooster.partial_dependence', '''
def partial_dependence(self, X, feature, samples=100, exclude_missing=True, percentile_bounds=(0.2, 0.98)):
    is_frame = isinstance(X, pd.DataFrame)
    if isinstance(feature, str):
        if not is_frame:
            raise ValueError("If `feature` is a string, then the object passed as `X` must be a pandas DataFrame.")
        values = X.loc[:, feature].to_numpy()
        if hasattr(self, "feature_names_in_"):
            matches = [i for i, v in enumerate(self.feature_names_in_) if v == feature]
        else:
            w_msg = (
                "No feature names were provided at fit, but feature was a string, attempting to "
                + "determine feature index from DataFrame Column, "
                + "ensure columns are the same order as data passed when fit."
            )
            warnings.warn(w_msg)
            matches = [i for i, v in enumerate(X.columns) if v == feature]
        [feature_idx] = matches
    elif isinstance(feature, int):
        feature_idx = feature
        if is_frame:
            values = X.iloc[:, feature].to_numpy()
        else:
            values = X[:, feature]
    else:
        raise ValueError(f"The parameter `feature` must be a string, or an int, however an object of type {type(feature)} was passed.")
    is_missing = np.isnan(values) | (values == self.missing)
    present = values[~is_missing]
    if samples is not None:
        min_p, max_p = percentile_bounds
        quantiles = np.linspace(min_p, max_p, num=samples)
        search_values = np.quantile(present, quantiles)
    else:
        search_values = np.sort(np.unique(present))
    if not exclude_missing:
        search_values = np.append([self.missing], search_values)
    res = []
    for value in search_values:
        dependence = self.booster.value_partial_dependence(feature=feature_idx, value=value)
        res.append((value, dependence))
    return np.array(res)
''', '')
R['importances_early'] = ('GradientBooster.calculate_feature_importance', '''
def calculate_feature_importance(self, method="Gain", normalize=True):
    importance = self.booster.calculate_feature_importance(method=method, normalize=normalize)
    if not hasattr(self, "feature_names_in_"):
        return importance
    names = self.feature_names_in_
    return {names[i]: v for i, v in importance.items()}
''', '')
R['importances_loop'] = ('GradientBooster.calculate_feature_importance', '''
def calculate_feature_importance(self, method="Gain", normalize=True):
    importance_ = self.booster.calculate_feature_importance(method=method, normalize=normalize)
    if hasattr(self, "feature_names_in_"):
        named = {}
        for i, v in importance_.items():
            named[self.feature_names_in_[i]] = v
        return named
    return importance_
''', '')
R['load_split'] = ('GradientBooster.load_booster', '''
@classmethod
def load_booster(cls, path):
    booster = CrateGradientBooster.load_booster(str(path))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = cls(**booster.get_params())
    c.booster = booster
    for m in c.meta_data_attributes:
        try:
            setattr(c, m, c._get_metadata_attributes(m))
            if m == "feature_names_in_":
                c._rename_constraints()
        except KeyError:
            continue
    return c
''', '''
def _rename_constraints(self):
    names = self.feature_names_in_
    self.monotone_constraints = {names[i]: v for i, v in self.monotone_constraints.items()}
    self.terminate_missing_features = {names[i] for i in self.terminate_missing_features}
''')
R['load_try_else'] = ('GradientBooster.load_booster', '''
@classmethod
def load_booster(cls, path):
    booster = CrateGradientBooster.load_booster(str(path))
    params = booster.get_params()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = cls(**params)
    c.booster = booster
    for m in c.meta_data_attributes:
        try:
            m_ = c._get_metadata_attributes(m)
        except KeyError:
            continue
        setattr(c, m, m_)
    if hasattr(c, "feature_names_in_"):
        c.monotone_constraints = {c.feature_names_in_[i]: v for i, v in c.monotone_constraints.items()}
        c.terminate_missing_features = {c.feature_names_in_[i] for i in c.terminate_missing_features}
    return c
''', '')
R['mono_guard'] = ('GradientBooster._standardize_monotonicity_map', '''
def _standardize_monotonicity_map(self, X):
    if isinstance(X, np.ndarray):
        return self.monotone_constraints
    positions = {name: i for i, name in enumerate(X.columns)}
    result = {}
    for f, v in self.monotone_constraints.items():
        result[positions[f]] = v
    return result
''', '')
R['term_set'] = ('GradientBooster._standardize_terminate_missing_features', '''
def _standardize_terminate_missing_features(self, X):
    if isinstance(X, np.ndarray):
        return set(self.terminate_missing_features)
    positions = {name: i for i, name in enumerate(X.columns)}
    result = set()
    for f in self.terminate_missing_features:
        result.add(positions[f])
    return result
''', '')
R['getstate_copy'] = ('GradientBooster.__getstate__', '''
def __getstate__(self):
    state = dict(self.__dict__)
    state.pop("booster")
    state["__booster_json_file__"] = self.booster.json_dump()
    return state
''', '')
R['getstate_lit'] = ('GradientBooster.__getstate__', '''
def __getstate__(self):
    res = {}
    for k, v in self.__dict__.items():
        if k == "booster":
            continue
        res[k] = v
    res["__booster_json_file__"] = self.booster.json_dump()
    return res
''', '')
R['setstate_pop'] = ('GradientBooster.__setstate__', '''
def __setstate__(self, d):
    booster_object = CrateGradientBooster.from_json(d.pop("__booster_json_file__"))
    d["booster"] = booster_object
    for p, v in booster_object.get_params().items():
        d.setdefault(p, v)
    self.__dict__ = d
''', '')
R['getparams_loop'] = ('GradientBooster.get_params', '''
def get_params(self, deep=True):
    spec = inspect.getfullargspec(GradientBooster)
    params = {}
    for name in spec.kwonlyargs:
        params[name] = getattr(self, name)
    return params
''', '')
R['setparams_merge'] = ('GradientBooster.set_params', '''
def set_params(self, **params):
    merged = {**self.get_params(), **params}
    GradientBooster.__init__(self, **merged)
    return self
''', '')
R['nodelists_fn'] = ('GradientBooster.get_node_lists', '''
def get_node_lists(self, map_features_names=True):
    model = json.loads(self.json_dump())["trees"]
    if map_features_names and hasattr(self, "feature_names_in_"):
        feature_map = dict(enumerate(self.feature_names_in_))
        leaf_split_feature = ""
    else:
        feature_map = {i: i for i in range(self.n_features_)}
        leaf_split_feature = -1
    trees = []
    for t in model:
        nodes = []
        for n in t["nodes"]:
            n["split_feature"] = leaf_split_feature if n["is_leaf"] else feature_map[n["split_feature"]]
            nodes.append(Node(**n))
        trees.append(nodes)
    return trees
''', '')
R['nodelists_comp'] = ('GradientBooster.get_node_lists', '''
def get_node_lists(self, map_features_names=True):
    use_names = map_features_names and hasattr(self, "feature_names_in_")
    if use_names:
        feature_map = {i: ft for i, ft in enumerate(self.feature_names_in_)}
        leaf_split_feature = ""
    else:
        feature_map = {i: i for i in range(self.n_features_)}
        leaf_split_feature = -1

    def build(n):
        if n["is_leaf"]:
            n["split_feature"] = leaf_split_feature
        else:
            n["split_feature"] = feature_map[n["split_feature"]]
        return Node(**n)

    return [[build(n) for n in t["nodes"]] for t in json.loads(self.json_dump())["trees"]]
''', '')
R['frame_loops'] = ('GradientBooster.trees_to_dataframe', '''
def trees_to_dataframe(self):
    def node_to_row(n, tree_n):
        def _id(i):
            return f"{tree_n}-{i}"
        if n.is_leaf:
            feature, split, yes, no, missing, gain = "Leaf", None, None, None, None, n.weight_value
        else:
            feature = str(n.split_feature)
            split = n.split_value
            yes = _id(n.left_child)
            no = _id(n.right_child)
            missing = _id(n.missing_node)
            gain = n.split_gain
        return dict(Tree=tree_n, Node=n.num, ID=_id(n.num), Feature=feature, Split=split, Yes=yes, No=no, Missing=missing, Gain=gain, Cover=n.hessian_sum)
    rows = []
    for tree_n, tree in enumerate(self.get_node_lists()):
        for n in tree:
            rows.append(node_to_row(n, tree_n))
    return pd.DataFrame.from_records(rows)
''', '')
R['xgb_node_leaf'] = ('Node._from_xgboost_node', '''
@classmethod
def _from_xgboost_node(cls, xgb_node, feature_map):
    is_leaf = "leaf" in xgb_node
    split = xgb_node.get("split", 0)
    threshold = np.float32(xgb_node.get("split_condition", 0.0))
    return cls(
        num=xgb_node["nodeid"],
        weight_value=xgb_node["leaf"] if is_leaf else 0.0,
        hessian_sum=xgb_node["cover"],
        depth=xgb_node.get("depth", 0),
        split_value=float(threshold),
        split_feature=feature_map.get(split, 0),
        split_gain=xgb_node.get("gain", 0.0),
        missing_node=xgb_node.get("missing", 0),
        left_child=xgb_node.get("yes", 0),
        right_child=xgb_node.get("no", 0),
        is_leaf=is_leaf,
    )
''', '')
R['xgb_tree_deque'] = ('_xgboost_tree_to_nodes', '''
def _xgboost_tree_to_nodes(tree, feature_map):
    buffer = [tree]
    node_list = []
    while buffer:
        xgb_node = buffer.pop(0)
        node = Node._from_xgboost_node(xgb_node, feature_map=feature_map)
        node_list.append(dataclasses.asdict(node))
        if "leaf" in xgb_node:
            continue
        buffer.extend(xgb_node["children"])
    node_list.sort(key=lambda n: n["num"])
    for idx, node in enumerate(node_list):
        if node["num"] != idx:
            raise ValueError(f"Nodes are unaligned for node {node['num']} at index {idx}")
    return node_list
''', '')
R['xgb_tree_for'] = ('_xgboost_tree_to_nodes', '''
def _xgboost_tree_to_nodes(tree, feature_map):
    buffer = [tree]
    node_list = []
    while len(buffer) > 0:
        xgb_node = buffer.pop(0)
        node_list.append(dataclasses.asdict(Node._from_xgboost_node(xgb_node, feature_map=feature_map)))
        if "leaf" not in xgb_node:
            for child in xgb_node["children"]:
                buffer.append(child)
    node_list = sorted(node_list, key=lambda n: n["num"])
    _check_alignment(node_list)
    return node_list
''', '''
def _check_alignment(node_list):
    for idx, node in enumerate(node_list):
        if idx != node["num"]:
            raise ValueError(f"Nodes are unaligned for node {node['num']} at index {idx}")
''')
R['xgb_model_split'] = ('_from_xgboost_model', '''
def _from_xgboost_model(model):
    import xgboost

    booster = model.get_booster() if isinstance(model, xgboost.XGBModel) else cast(xgboost.Booster, model)
    model_dump = booster.get_dump(dump_format="json", with_stats=True)
    features = booster.feature_names
    if features is not None:
        feature_map = {v: i for i, v in enumerate(features)}
    else:
        feature_map = {f"f{i}": i for i in range(booster.num_features())}
    trees = [
        {"nodes": _xgboost_tree_to_nodes(tree=json.loads(tree), feature_map=feature_map)}
        for tree in model_dump
    ]
    base_score = _xgboost_base_score(booster)
    model_json = json.loads(GradientBooster().json_dump())
    model_json["base_score"] = base_score
    model_json["trees"] = trees
    final_model = GradientBooster()
    final_model.booster = CrateGradientBooster.from_json(json.dumps(model_json))
    if features is not None:
        final_model.feature_names_in_ = features
        final_model.n_features_ = len(features)
    return final_model
''', '''
def _xgboost_base_score(booster):
    config = json.loads(booster.save_config())["learner"]
    score = float(config["learner_model_param"]["base_score"])
    if config["objective"]["name"] != "binary:logistic":
        return score
    return np.log(score / (1 - score))
''')
R['ser_scaler'] = ('serialize.ScalerSerializer.serialize', '''
def serialize(self, obj):
    if isinstance(obj, str):
        return f"'{obj}'"
    return str(obj)
''', '')
R['ser_numpy'] = ('serialize.NumpySerializer.deserialize', '''
def deserialize(self, obj_repr):
    payload = json.loads(obj_repr)
    data = NumpyData(**payload)
    a = np.array(data.array, dtype=data.dtype)
    if len(data.shape) != 1:
        a = a.reshape(data.shape)
    return a
''', '')
R['ser_numpy_s'] = ('serialize.NumpySerializer.serialize', '''
def serialize(self, obj):
    payload = dict(array=obj.tolist(), dtype=str(obj.dtype), shape=obj.shape)
    return json.dumps(payload)
''', '')
R['hist_guard'] = ('GradientBooster.get_evaluation_history', '''
def get_evaluation_history(self):
    history = self.booster.get_evaluation_history()
    if history is None:
        return None
    n_rows, n_cols, flat = history
    return flat.reshape((n_rows, n_cols))
''', '')
R['imps_prop'] = ('GradientBooster.feature_importances_', '''
@property
def feature_importances_(self):
    vals = self.calculate_feature_importance(method=self.feature_importance_method, normalize=True)
    keys = self.feature_names_in_ if hasattr(self, "feature_names_in_") else range(self.n_features_)
    return np.array([vals.get(k, 0.0) for k in keys])
''', '')
R['meta_set'] = ('GradientBooster._set_metadata_attributes', '''
def _set_metadata_attributes(self, key, value):
    serializer = self.meta_data_attributes[key]
    self.insert_metadata(key=key, value=serializer.serialize(value))
''', '')
R['meta_get'] = ('GradientBooster._get_metadata_attributes', '''
def _get_metadata_attributes(self, key):
    serializer = self.meta_data_attributes[key]
    return serializer.deserialize(self.get_metadata(key))
''', '')
R['convert_array'] = ('_convert_input_array', '''
def _convert_input_array(x):
    values = x.to_numpy() if isinstance(x, pd.Series) else x
    if np.issubdtype(values.dtype, "float64"):
        return values
    return values.astype(dtype="float64", copy=False)
''', '')

R['importances_zip'] = ('GradientBooster.calculate_feature_importance', '''
def calculate_feature_importance(self, method="Gain", normalize=True):
    importance_ = self.booster.calculate_feature_importance(method=method, normalize=normalize)
    if hasattr(self, "feature_names_in_"):
        feature_map = dict(zip(range(len(self.feature_names_in_)), self.feature_names_in_))
        importance_ = {feature_map[i]: v for i, v in importance_.items()}
    return importance_
''', '')
R['mono_index'] = ('GradientBooster._standardize_monotonicity_map', '''
def _standardize_monotonicity_map(self, X):
    if not isinstance(X, np.ndarray):
        feature_map = _column_positions(X)
        return {feature_map[f]: v for f, v in self.monotone_constraints.items()}
    return self.monotone_constraints
''', '')
R['term_comp'] = ('GradientBooster._standardize_terminate_missing_features', '''
def _standardize_terminate_missing_features(self, X):
    if not isinstance(X, np.ndarray):
        feature_map = {f: i for i, f in enumerate(X.columns)}
        return {feature_map[f] for f in self.terminate_missing_features}
    return set(self.terminate_missing_features)
''', '')
R['xgb_tree_pos'] = ('_xgboost_tree_to_nodes', '''
def _xgboost_tree_to_nodes(tree, feature_map):
    buffer = [tree]
    pos = 0
    node_list = []
    while pos < len(buffer):
        xgb_node = buffer[pos]
        pos += 1
        node_list.append(dataclasses.asdict(Node._from_xgboost_node(xgb_node, feature_map=feature_map)))
        if "leaf" not in xgb_node:
            buffer.extend(xgb_node["children"])
    node_list = sorted(node_list, key=lambda n: n["num"])
    for idx, node in enumerate(node_list):
        if idx != node["num"]:
            raise ValueError(f"Nodes are unaligned for node {node['num']} at index {idx}")
    return node_list
''', '')
R['xgb_tree_any'] = ('_xgboost_tree_to_nodes', '''
def _xgboost_tree_to_nodes(tree, feature_map):
    buffer = [tree]
    node_list = []
    while len(buffer) > 0:
        xgb_node = buffer.pop(0)
        is_leaf = "leaf" in xgb_node
        node_list.append(dataclasses.asdict(Node._from_xgboost_node(xgb_node, feature_map=feature_map)))
        if not is_leaf:
            buffer += xgb_node["children"]
    node_list = sorted(node_list, key=lambda n: n["num"])
    for idx in range(len(node_list)):
        num = node_list[idx]["num"]
        if idx != num:
            raise ValueError(f"Nodes are unaligned for node {num} at index {idx}")
    return node_list
''', '')
R['xgb_node_dict'] = ('Node._from_xgboost_node', '''
@classmethod
def _from_xgboost_node(cls, xgb_node, feature_map):
    fields = {
        "num": xgb_node["nodeid"],
        "weight_value": xgb_node.get("leaf", 0.0),
        "hessian_sum": xgb_node["cover"],
        "depth": xgb_node.get("depth", 0),
        "split_value": float(np.float32(xgb_node.get("split_condition", 0.0))),
        "split_feature": feature_map.get(xgb_node.get("split", 0), 0),
        "split_gain": xgb_node.get("gain", 0.0),
        "missing_node": xgb_node.get("missing", 0),
        "left_child": xgb_node.get("yes", 0),
        "right_child": xgb_node.get("no", 0),
        "is_leaf": "leaf" in xgb_node,
    }
    return Node(**fields)
''', '')
R['frame_dict'] = ('GradientBooster.trees_to_dataframe', '''
def trees_to_dataframe(self):
    def _id(tree_n, i):
        return f"{tree_n}-{i}"

    def node_to_row(n, tree_n):
        row = {
            "Tree": tree_n,
            "Node": n.num,
            "ID": _id(tree_n, n.num),
            "Feature": "Leaf" if n.is_leaf else str(n.split_feature),
            "Split": None if n.is_leaf else n.split_value,
            "Yes": None if n.is_leaf else _id(tree_n, n.left_child),
            "No": None if n.is_leaf else _id(tree_n, n.right_child),
            "Missing": None if n.is_leaf else _id(tree_n, n.missing_node),
            "Gain": n.weight_value if n.is_leaf else n.split_gain,
            "Cover": n.hessian_sum,
        }
        return row

    vals = [node_to_row(n, i) for i, tree in enumerate(self.get_node_lists()) for n in tree]
    return pd.DataFrame.from_records(vals)
''', '')
R['nodelists_helper'] = ('GradientBooster.get_node_lists', '''
def get_node_lists(self, map_features_names=True):
    model = json.loads(self.json_dump())["trees"]
    feature_map, leaf_split_feature = self._feature_labels(map_features_names)
    trees = []
    for t in model:
        tree = []
        for n in t["nodes"]:
            if n["is_leaf"]:
                n["split_feature"] = leaf_split_feature
            else:
                n["split_feature"] = feature_map[n["split_feature"]]
            tree.append(Node(**n))
        trees.append(tree)
    return trees
''', '''
def _feature_labels(self, use_names):
    if use_names and hasattr(self, "feature_names_in_"):
        return {i: ft for i, ft in enumerate(self.feature_names_in_)}, ""
    return {i: i for i in range(self.n_features_)}, -1
''')
R['convert_frame'] = ('_convert_input_frame', '''
def _convert_input_frame(X):
    if isinstance(X, pd.DataFrame):
        values, features_ = X.to_numpy(), X.columns.to_list()
    else:
        values, features_ = X, []
    if not np.issubdtype(values.dtype, "float64"):
        values = values.astype(dtype="float64", copy=False)
    rows, cols = values.shape
    return features_, values.ravel(order="F"), rows, cols
''', '')
R['convert_frame_T'] = ('_convert_input_frame', '''
def _convert_input_frame(X):
    features_ = []
    X_ = X
    if isinstance(X, pd.DataFrame):
        features_ = X.columns.to_list()
        X_ = X.to_numpy()
    X_ = _to_float64(X_)
    n_rows, n_cols = X_.shape
    return features_, X_.T.ravel(), n_rows, n_cols
''', '''
def _to_float64(values):
    if not np.issubdtype(values.dtype, "float64"):
        values = values.astype(dtype="float64", copy=False)
    return values
''')
R['imps_early'] = ('GradientBooster.feature_importances_', '''
@property
def feature_importances_(self):
    vals = self.calculate_feature_importance(method=self.feature_importance_method, normalize=True)
    if not hasattr(self, "feature_names_in_"):
        return np.array([vals.get(i, 0.0) for i in range(self.n_features_)])
    out = []
    for name in self.feature_names_in_:
        out.append(vals.get(name, 0.0))
    return np.array(out)
''', '')
R['imps_in'] = ('GradientBooster.feature_importances_', '''
@property
def feature_importances_(self):
    vals = self.calculate_feature_importance(method=self.feature_importance_method, normalize=True)
    if hasattr(self, "feature_names_in_"):
        return np.array([vals[ft] if ft in vals else 0.0 for ft in self.feature_names_in_])
    return np.array([vals[ft] if ft in vals else 0.0 for ft in range(self.n_features_)])
''', '')
R['pd_resolve_fn'] = ('GradientBooster.partial_dependence', '''
def partial_dependence(self, X, feature, samples=100, exclude_missing=True, percentile_bounds=(0.2, 0.98)):
    if not isinstance(feature, (str, int)):
        raise ValueError(f"The parameter `feature` must be a string, or an int, however an object of type {type(feature)} was passed.")
    if isinstance(feature, str):
        if not isinstance(X, pd.DataFrame):
            raise ValueError("If `feature` is a string, then the object passed as `X` must be a pandas DataFrame.")
        values = X.loc[:, feature].to_numpy()
        if not hasattr(self, "feature_names_in_"):
            w_msg = (
                "No feature names were provided at fit, but feature was a string, attempting to "
                + "determine feature index from DataFrame Column, "
                + "ensure columns are the same order as data passed when fit."
            )
            warnings.warn(w_msg)
            [feature_idx] = [i for i, v in enumerate(X.columns) if v == feature]
        else:
            [feature_idx] = [i for i, v in enumerate(self.feature_names_in_) if v == feature]
    else:
        feature_idx = feature
        if isinstance(X, pd.DataFrame):
            values = X.iloc[:, feature].to_numpy()
        else:
            values = X[:, feature]
    min_p, max_p = percentile_bounds
    keep = ~(np.isnan(values) | (values == self.missing))
    search_values = _search_values(values[keep], samples, min_p, max_p)
    if not exclude_missing:
        search_values = np.append([self.missing], search_values)
    res = [
        (v, self.booster.value_partial_dependence(feature=feature_idx, value=v))
        for v in search_values
    ]
    return np.array(res)
''', '')
R['pd_notmask'] = ('GradientBooster.partial_dependence', R['pd_mask_steps'][1].replace('is_missing = np.isnan(values) | (values == self.missing)', 'keep = ~np.isnan(values) & ~(values == self.missing)').replace('values[~is_missing]', 'values[keep]'), '')
R['pd_neqmask'] = ('GradientBooster.partial_dependence', R['pd_mask_steps'][1].replace('is_missing = np.isnan(values) | (values == self.missing)', 'keep = ~np.isnan(values) & (values != self.missing)').replace('values[~is_missing]', 'values[keep]'), '')
R['load_with'] = ('GradientBooster.load_booster', '''
@classmethod
def load_booster(cls, path):
    booster = CrateGradientBooster.load_booster(str(path))
    params = booster.get_params()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = cls(**params)
    c.booster = booster
    for name in c.meta_data_attributes:
        try:
            value = c._get_metadata_attributes(name)
        except KeyError:
            continue
        setattr(c, name, value)
        if name == "feature_names_in_":
            names = value
            c.monotone_constraints = {names[i]: v for i, v in c.monotone_constraints.items()}
            c.terminate_missing_features = {names[i] for i in c.terminate_missing_features}
    return c
''', '')
R['save_path'] = ('GradientBooster.save_booster', '''
def save_booster(self, path):
    target = str(path)
    self.booster.save_booster(target)
''', '')
R['predict_inline'] = ('GradientBooster.predict', '''
def predict(self, X, parallel=None):
    features_, flat_data, rows, cols = _convert_input_frame(X)
    self._validate_features(features_)
    use_parallel = parallel
    if use_parallel is None:
        use_parallel = self.parallel
    booster = self.booster
    predictions = booster.predict(flat_data=flat_data, rows=rows, cols=cols, parallel=use_parallel)
    return predictions
''', '')
R['setparams_loop'] = ('GradientBooster.set_params', '''
def set_params(self, **params):
    new_params = self.get_params()
    for key, value in params.items():
        new_params[key] = value
    GradientBooster.__init__(self, **new_params)
    return self
''', '')
R['getstate_copy2'] = ('GradientBooster.__getstate__', '''
def __getstate__(self):
    res = self.__dict__.copy()
    del res["booster"]
    res["__booster_json_file__"] = self.booster.json_dump()
    return res
''', '')
R['setstate_local'] = ('GradientBooster.__setstate__', '''
def __setstate__(self, d):
    booster_json = d["__booster_json_file__"]
    booster_object = CrateGradientBooster.from_json(booster_json)
    del d["__booster_json_file__"]
    d["booster"] = booster_object
    params = booster_object.get_params()
    for p in params:
        if p not in d:
            d[p] = params[p]
    self.__dict__ = d
''', '')
R['xgb_model_loop'] = ('_from_xgboost_model', '''
def _from_xgboost_model(model):
    import xgboost

    is_wrapper = isinstance(model, xgboost.XGBModel)
    booster = model.get_booster() if is_wrapper else model
    features = booster.feature_names
    if features is None:
        feature_map = {f"f{i}": i for i in range(booster.num_features())}
    else:
        feature_map = dict(zip(features, range(len(features))))
    trees = []
    for tree in booster.get_dump(dump_format="json", with_stats=True):
        parsed = json.loads(tree)
        trees.append({"nodes": _xgboost_tree_to_nodes(parsed, feature_map)})
    learner = json.loads(booster.save_config())["learner"]
    base_score = float(learner["learner_model_param"]["base_score"])
    objective = learner["objective"]["name"]
    if objective == "binary:logistic":
        base_score = np.log(base_score / (1 - base_score))
    final_model = GradientBooster()
    model_json = json.loads(GradientBooster().json_dump())
    model_json.update({"base_score": base_score, "trees": trees})
    final_model.booster = CrateGradientBooster.from_json(json.dumps(model_json))
    if features is not None:
        final_model.n_features_ = len(features)
        final_model.feature_names_in_ = features
    return final_model
''', '')
MODULE_HELPERS = '''
def _column_positions(X):
    return {f: i for i, f in enumerate(X.columns)}


def _search_values(values, samples, min_p, max_p):
    if samples is None:
        return np.sort(np.unique(values))
    return np.quantile(values, np.linspace(min_p, max_p, num=samples))
'''

def find(tree, qual):
    body = tree.body
    node = None
    for p in qual.split('.'):
        node = next(n for n in body if getattr(n, 'name', None) == p)
        body = node.body
    return node

def apply(name, dst):
    qual, new, helper = R[name]
    f = '__init__.py'
    if qual.startswith('serialize.'):
        f, qual = 'serialize.py', qual[len('serialize.'):]
    if os.path.isdir(dst): shutil.rmtree(dst)
    os.makedirs(dst)
    for g in ('__init__.py', 'serialize.py'): shutil.copy(f'{SRC}/{g}', dst)
    s = open(f'{SRC}/{f}').read(); lines = s.split('\n')
    n = find(ast.parse(s), qual)
    lo = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
    ind = ' ' * n.col_offset
    src = textwrap.indent((helper.strip('\n') + '\n\n' if helper else '') + new.strip('\n'), ind)
    lines[lo:n.end_lineno] = src.split('\n')
    t = '\n'.join(lines) + (MODULE_HELPERS if f == '__init__.py' else ''); ast.parse(t)
    open(f'{dst}/{f}', 'w').write(t)

CHILD = r'''
import sys; sys.path.insert(0, sys.argv[2]); sys.setrecursionlimit(100000)
from pyequiv import PyEquiv
P = PyEquiv(sys.argv[1], sys.argv[2] + '/../spec_python')
bad = []
for k in sorted(P.anchors):
    v, _ = P.verdict(k)
    if v != 'EQ': bad.append(f'{v} {k}')
print('ok' if not bad else '; '.join(bad))
'''
if __name__ == '__main__':
    names = sys.argv[1:] or list(R)
    d = '/tmp/pyrt'
    for nm in names:
        apply(nm, d)
        r = subprocess.run([sys.executable, '-c', CHILD, d, HERE + '/../engine'], capture_output=True, text=True)
        print(nm, (r.stdout.strip() or r.stderr[-300:])[:300], flush=True)
    shutil.rmtree(d, ignore_errors=True)
