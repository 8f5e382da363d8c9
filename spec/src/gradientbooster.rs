//! C01, C02, C03, C04, C05, C06, C09, C10, C15, C17, C20, C23, C27.
use crate::binning::bin_matrix;
use crate::constraints::ConstraintMap;
use crate::data::{Matrix, RowMajorMatrix};
use crate::errors::ForustError;
use crate::metric::{is_comparison_better, metric_callables, Metric, MetricFn};
use crate::objective::{
    calc_init_callables, gradient_hessian_callables, LogLoss, ObjectiveFunction, ObjectiveType, SquaredLoss,
};
use crate::sampler::{GossSampler, RandomSampler, SampleMethod, Sampler};
use crate::shapley::predict_contributions_row_shapley;
use crate::splitter::{MissingBranchSplitter, MissingImputerSplitter, Splitter};
use crate::tree::Tree;
use crate::utils::{
    fmt_vec_output, odds, validate_not_nan_vec, validate_positive_float_parameter, validate_positive_not_nan_vec,
};
use log::info;
use rand::rngs::StdRng;
use rand::seq::IteratorRandom;
use rand::SeedableRng;
use serde::{Deserialize, Deserializer, Serialize};
use std::collections::{HashMap, HashSet};
use std::fs;

pub type EvaluationData<'a> = (Matrix<'a, f64>, &'a [f64], &'a [f64]);
pub type TrainingEvaluationData<'a> = (&'a Matrix<'a, f64>, &'a [f64], &'a [f64], Vec<f64>);
type ImportanceFn = fn(&Tree, &mut HashMap<usize, (f32, usize)>);

#[derive(Serialize, Deserialize)]
pub enum GrowPolicy {
    DepthWise,
    LossGuide,
}

#[derive(Serialize, Deserialize)]
pub enum ContributionsMethod {
    Weight,
    Average,
    BranchDifference,
    MidpointDifference,
    ModeDifference,
    ProbabilityChange,
    Shapley,
}

#[derive(Serialize, Deserialize)]
pub enum ImportanceMethod {
    Weight,
    Gain,
    Cover,
    TotalGain,
    TotalCover,
}

#[derive(Serialize, Deserialize, Clone, Copy)]
pub enum MissingNodeTreatment {
    None,
    AssignToParent,
    AverageLeafWeight,
    AverageNodeWeight,
}

#[derive(Deserialize, Serialize)]
pub struct GradientBooster {
    pub objective_type: ObjectiveType,
    pub iterations: usize,
    pub learning_rate: f32,
    pub max_depth: usize,
    pub max_leaves: usize,
    #[serde(default = "default_l1")]
    pub l1: f32,
    pub l2: f32,
    pub gamma: f32,
    #[serde(default = "default_max_delta_step")]
    pub max_delta_step: f32,
    pub min_leaf_weight: f32,
    pub base_score: f64,
    pub nbins: u16,
    pub parallel: bool,
    pub allow_missing_splits: bool,
    pub monotone_constraints: Option<ConstraintMap>,
    pub subsample: f32,
    #[serde(default = "default_top_rate")]
    pub top_rate: f64,
    #[serde(default = "default_other_rate")]
    pub other_rate: f64,
    #[serde(default = "default_colsample_bytree")]
    pub colsample_bytree: f64,
    pub seed: u64,
    #[serde(deserialize_with = "parse_missing")]
    pub missing: f64,
    pub create_missing_branch: bool,
    #[serde(default = "default_sample_method")]
    pub sample_method: SampleMethod,
    #[serde(default = "default_grow_policy")]
    pub grow_policy: GrowPolicy,
    #[serde(default = "default_evaluation_metric")]
    pub evaluation_metric: Option<Metric>,
    #[serde(default = "default_early_stopping_rounds")]
    pub early_stopping_rounds: Option<usize>,
    #[serde(default = "default_initialize_base_score")]
    pub initialize_base_score: bool,
    #[serde(default = "default_terminate_missing_features")]
    pub terminate_missing_features: HashSet<usize>,
    #[serde(default = "default_evaluation_history")]
    pub evaluation_history: Option<RowMajorMatrix<f64>>,
    #[serde(default = "default_best_iteration")]
    pub best_iteration: Option<usize>,
    #[serde(default = "default_prediction_iteration")]
    pub prediction_iteration: Option<usize>,
    #[serde(default = "default_missing_node_treatment")]
    pub missing_node_treatment: MissingNodeTreatment,
    #[serde(default = "default_log_iterations")]
    pub log_iterations: usize,
    #[serde(default = "default_force_children_to_bound_parent")]
    pub force_children_to_bound_parent: bool,
    pub trees: Vec<Tree>,
    metadata: HashMap<String, String>,
}

fn default_l1() -> f32 {
    0.0
}
fn default_max_delta_step() -> f32 {
    0.0
}
fn default_initialize_base_score() -> bool {
    false
}
fn default_grow_policy() -> GrowPolicy {
    GrowPolicy::DepthWise
}
fn default_top_rate() -> f64 {
    0.1
}
fn default_other_rate() -> f64 {
    0.2
}
fn default_sample_method() -> SampleMethod {
    SampleMethod::None
}
fn default_evaluation_metric() -> Option<Metric> {
    None
}
fn default_early_stopping_rounds() -> Option<usize> {
    None
}
fn default_evaluation_history() -> Option<RowMajorMatrix<f64>> {
    None
}
fn default_best_iteration() -> Option<usize> {
    None
}
fn default_prediction_iteration() -> Option<usize> {
    None
}
fn default_terminate_missing_features() -> HashSet<usize> {
    HashSet::new()
}
fn default_colsample_bytree() -> f64 {
    1.0
}
fn default_missing_node_treatment() -> MissingNodeTreatment {
    MissingNodeTreatment::AssignToParent
}
fn default_log_iterations() -> usize {
    0
}
fn default_force_children_to_bound_parent() -> bool {
    false
}

/// JSON has no NaN: it is written as null and read back as NaN
fn parse_missing<'de, D>(d: D) -> Result<f64, D::Error>
where
    D: Deserializer<'de>,
{
    let x: Option<f64> = Deserialize::deserialize(d)?;
    match x {
        Some(v) => Ok(v),
        None => Ok(f64::NAN),
    }
}

impl Default for GradientBooster {
    fn default() -> Self {
        let objective_type = ObjectiveType::LogLoss;
        let (iterations, learning_rate, max_depth, max_leaves) = (10, 0.3, 5, usize::MAX);
        let (l1, l2, gamma, max_delta_step, min_leaf_weight, base_score) = (0.0, 1.0, 0.0, 0.0, 1.0, 0.5);
        let (nbins, parallel, allow_missing_splits) = (256, true, true);
        let (subsample, top_rate, other_rate, colsample_bytree) = (1.0, 0.1, 0.2, 1.0);
        let (seed, missing, create_missing_branch) = (0, f64::NAN, false);
        let initialize_base_score = true;
        let (log_iterations, force_children_to_bound_parent) = (0, false);
        Self::new(
            objective_type,
            iterations,
            learning_rate,
            max_depth,
            max_leaves,
            l1,
            l2,
            gamma,
            max_delta_step,
            min_leaf_weight,
            base_score,
            nbins,
            parallel,
            allow_missing_splits,
            None,
            subsample,
            top_rate,
            other_rate,
            colsample_bytree,
            seed,
            missing,
            create_missing_branch,
            SampleMethod::None,
            GrowPolicy::DepthWise,
            None,
            None,
            initialize_base_score,
            HashSet::new(),
            MissingNodeTreatment::AssignToParent,
            log_iterations,
            force_children_to_bound_parent,
        )
        .unwrap()
    }
}

impl GradientBooster {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        objective_type: ObjectiveType,
        iterations: usize,
        learning_rate: f32,
        max_depth: usize,
        max_leaves: usize,
        l1: f32,
        l2: f32,
        gamma: f32,
        max_delta_step: f32,
        min_leaf_weight: f32,
        base_score: f64,
        nbins: u16,
        parallel: bool,
        allow_missing_splits: bool,
        monotone_constraints: Option<ConstraintMap>,
        subsample: f32,
        top_rate: f64,
        other_rate: f64,
        colsample_bytree: f64,
        seed: u64,
        missing: f64,
        create_missing_branch: bool,
        sample_method: SampleMethod,
        grow_policy: GrowPolicy,
        evaluation_metric: Option<Metric>,
        early_stopping_rounds: Option<usize>,
        initialize_base_score: bool,
        terminate_missing_features: HashSet<usize>,
        missing_node_treatment: MissingNodeTreatment,
        log_iterations: usize,
        force_children_to_bound_parent: bool,
    ) -> Result<Self, ForustError> {
        let booster = GradientBooster {
            // nothing fitted yet
            metadata: HashMap::new(),
            trees: vec![],
            evaluation_history: None,
            best_iteration: None,
            prediction_iteration: None,
            // every option under its own name
            force_children_to_bound_parent,
            log_iterations,
            missing_node_treatment,
            terminate_missing_features,
            initialize_base_score,
            early_stopping_rounds,
            evaluation_metric,
            grow_policy,
            sample_method,
            create_missing_branch,
            missing,
            seed,
            colsample_bytree,
            other_rate,
            top_rate,
            subsample,
            monotone_constraints,
            allow_missing_splits,
            parallel,
            nbins,
            base_score,
            min_leaf_weight,
            max_delta_step,
            gamma,
            l2,
            l1,
            max_leaves,
            max_depth,
            learning_rate,
            iterations,
            objective_type,
        };
        match booster.validate_parameters() {
            Ok(()) => Ok(booster),
            Err(e) => Err(e),
        }
    }

    fn validate_parameters(&self) -> Result<(), ForustError> {
        validate_positive_float_parameter(self.learning_rate, name_of("self.learning_rate"))?;
        validate_positive_float_parameter(self.l1, name_of("self.l1"))?;
        validate_positive_float_parameter(self.l2, name_of("self.l2"))?;
        validate_positive_float_parameter(self.gamma, name_of("self.gamma"))?;
        validate_positive_float_parameter(self.max_delta_step, name_of("self.max_delta_step"))?;
        validate_positive_float_parameter(self.min_leaf_weight, name_of("self.min_leaf_weight"))?;
        validate_positive_float_parameter(self.subsample, name_of("self.subsample"))?;
        validate_positive_float_parameter(self.top_rate, name_of("self.top_rate"))?;
        validate_positive_float_parameter(self.other_rate, name_of("self.other_rate"))?;
        validate_positive_float_parameter(self.colsample_bytree, name_of("self.colsample_bytree"))
    }

    pub fn fit(
        &mut self,
        data: &Matrix<f64>,
        y: &[f64],
        sample_weight: &[f64],
        evaluation_data: Option<Vec<EvaluationData>>,
    ) -> Result<(), ForustError> {
        // everything is validated before the booster is touched
        validate_not_nan_vec(y, "y".to_string())?;
        validate_positive_not_nan_vec(sample_weight, "sample_weight".to_string())?;
        if let Some(sets) = &evaluation_data {
            for i in 0..sets.len() {
                let (_, set_y, set_weight) = &sets[i];
                validate_not_nan_vec(set_y, format!("eval set {} y", i).to_string())?;
                validate_positive_not_nan_vec(set_weight, format!("eval set {} sample_weight", i).to_string())?;
            }
        }
        let constraints_map = match &self.monotone_constraints {
            Some(c) => c.clone(),
            None => ConstraintMap::new(),
        };
        if !self.create_missing_branch {
            let splitter = MissingImputerSplitter {
                constraints_map,
                allow_missing_splits: self.allow_missing_splits,
                learning_rate: self.learning_rate,
                min_leaf_weight: self.min_leaf_weight,
                gamma: self.gamma,
                max_delta_step: self.max_delta_step,
                l2: self.l2,
                l1: self.l1,
            };
            return self.fit_trees(y, sample_weight, data, &splitter, evaluation_data);
        }
        let splitter = MissingBranchSplitter {
            force_children_to_bound_parent: self.force_children_to_bound_parent,
            missing_node_treatment: self.missing_node_treatment,
            terminate_missing_features: self.terminate_missing_features.clone(),
            constraints_map,
            allow_missing_splits: self.allow_missing_splits,
            learning_rate: self.learning_rate,
            min_leaf_weight: self.min_leaf_weight,
            gamma: self.gamma,
            max_delta_step: self.max_delta_step,
            l2: self.l2,
            l1: self.l1,
        };
        self.fit_trees(y, sample_weight, data, &splitter, evaluation_data)
    }

    fn sample_index(
        &self,
        rng: &mut StdRng,
        index: &[usize],
        grad: &mut [f32],
        hess: &mut [f32],
    ) -> (Vec<usize>, Vec<usize>) {
        if let SampleMethod::Goss = self.sample_method {
            return GossSampler::new(self.top_rate, self.other_rate).sample(rng, index, grad, hess);
        }
        if let SampleMethod::Random = self.sample_method {
            return RandomSampler::new(self.subsample).sample(rng, index, grad, hess);
        }
        (index.to_vec(), vec![])
    }

    fn get_metric_fn(&self) -> (MetricFn, bool) {
        if let Some(metric) = self.evaluation_metric {
            return metric_callables(&metric);
        }
        match self.objective_type {
            ObjectiveType::SquaredLoss => metric_callables(&SquaredLoss::default_metric()),
            ObjectiveType::LogLoss => metric_callables(&LogLoss::default_metric()),
        }
    }

    fn reset(&mut self) {
        self.prediction_iteration = None;
        self.best_iteration = None;
        self.evaluation_history = None;
        self.trees.clear();
    }

    fn fit_trees<T: Splitter>(
        &mut self,
        y: &[f64],
        sample_weight: &[f64],
        data: &Matrix<f64>,
        splitter: &T,
        evaluation_data: Option<Vec<EvaluationData>>,
    ) -> Result<(), ForustError> {
        if self.trees.len() > 0 {
            self.reset();
        }
        let mut rng = StdRng::seed_from_u64(self.seed);
        if self.initialize_base_score {
            let init = calc_init_callables(&self.objective_type);
            self.base_score = init(y, sample_weight);
        }
        let base = self.base_score;
        let derivatives = gradient_hessian_callables(&self.objective_type);
        let mut predictions = vec![base; y.len()];
        let mut sets: Option<Vec<TrainingEvaluationData>> = match &evaluation_data {
            Some(e) => {
                let mut v: Vec<TrainingEvaluationData> = Vec::new();
                for (d, y, w) in e {
                    v.push((d, *y, *w, vec![base; y.len()]));
                }
                Some(v)
            }
            None => None,
        };
        let binned = bin_matrix(data, sample_weight, self.nbins, self.missing)?;
        let bins = Matrix::new(&binned.binned_data, data.rows, data.cols);
        let all_columns: Vec<usize> = (0..data.cols).collect();

        let mut best: Option<f64> = None;
        let mut stop = false;
        let (mut grad, mut hess) = derivatives(y, &predictions, sample_weight);
        for i in 0..self.iterations {
            let report = self.log_iterations != 0 && i % self.log_iterations == 0;
            let (rows, _) = self.sample_index(&mut rng, &data.index, &mut grad, &mut hess);
            let some_columns;
            let columns = if self.colsample_bytree == 1.0 {
                &all_columns
            } else {
                let amount = (self.colsample_bytree * (all_columns.len() as f64)).floor() as usize;
                let mut picked: Vec<usize> =
                    all_columns.iter().choose_multiple(&mut rng, amount).iter().map(|c| **c).collect();
                picked.sort();
                some_columns = picked;
                &some_columns
            };
            let mut tree = Tree::new();
            tree.fit(
                &bins,
                rows,
                columns,
                &binned.cuts,
                &grad,
                &hess,
                splitter,
                self.max_leaves,
                self.max_depth,
                self.parallel,
                &self.sample_method,
                &self.grow_policy,
            );
            self.update_predictions_inplace(&mut predictions, &tree, data);
            if let Some(sets) = &mut sets {
                let n = sets.len();
                if self.evaluation_history.is_none() {
                    self.evaluation_history = Some(RowMajorMatrix::new(vec![], 0, n));
                }
                let mut row: Vec<f64> = Vec::new();
                for k in 0..n {
                    let (set_data, set_y, set_weight, set_predictions) = &mut sets[k];
                    self.update_predictions_inplace(set_predictions, &tree, set_data);
                    let (metric, maximize) = self.get_metric_fn();
                    let value = metric(set_y, set_predictions, set_weight);
                    if k == n - 1 {
                        if let Some(rounds) = self.early_stopping_rounds {
                            let improved = match best {
                                None => true,
                                Some(b) => is_comparison_better(b, value, maximize),
                            };
                            if improved {
                                self.update_best_iteration(i);
                                best = Some(value);
                            } else if let Some(b) = self.best_iteration {
                                if i - b >= rounds {
                                    if self.log_iterations > 0 {
                                        info!("Stopping early at iteration {} with metric value {}", i, value)
                                    }
                                    stop = true;
                                }
                            }
                        }
                    }
                    row.push(value);
                }
                if report {
                    info!("Iteration {} evaluation data values: {}", i, fmt_vec_output(&row));
                }
                if let Some(history) = &mut self.evaluation_history {
                    history.append_row(row);
                }
            }
            self.trees.push(tree);
            if stop {
                break;
            }
            let next = derivatives(y, &predictions, sample_weight);
            grad = next.0;
            hess = next.1;
            if report {
                info!("Completed iteration {} of {}", i, self.iterations);
            }
        }
        if self.log_iterations > 0 {
            info!("Finished training booster with {} iterations.", self.trees.len());
        }
        Ok(())
    }

    fn update_best_iteration(&mut self, i: usize) {
        self.prediction_iteration = Some(i + 1);
        self.best_iteration = Some(i);
    }

    fn update_predictions_inplace(&self, yhat: &mut [f64], tree: &Tree, data: &Matrix<f64>) {
        let p = tree.predict(data, self.parallel, &self.missing);
        for (total, new) in yhat.iter_mut().zip(p) {
            *total = *total + new;
        }
    }

    pub fn fit_unweighted(
        &mut self,
        data: &Matrix<f64>,
        y: &[f64],
        evaluation_data: Option<Vec<EvaluationData>>,
    ) -> Result<(), ForustError> {
        let ones = vec![1.0; data.rows];
        self.fit(data, y, &ones, evaluation_data)
    }

    pub fn predict(&self, data: &Matrix<f64>, parallel: bool) -> Vec<f64> {
        let mut out = vec![self.base_score; data.rows];
        for tree in self.get_prediction_trees() {
            let p = tree.predict(data, parallel, &self.missing);
            out.iter_mut().zip(p).for_each(|(total, new)| *total += new);
        }
        out
    }

    pub fn predict_leaf_indices(&self, data: &Matrix<f64>) -> Vec<usize> {
        let mut out = Vec::new();
        for tree in self.get_prediction_trees() {
            out.extend(tree.predict_leaf_indices(data, &self.missing));
        }
        out
    }

    pub fn predict_contributions(&self, data: &Matrix<f64>, method: ContributionsMethod, parallel: bool) -> Vec<f64> {
        if let ContributionsMethod::Average = method {
            return self.predict_contributions_average(data, parallel);
        }
        if let ContributionsMethod::ProbabilityChange = method {
            if !matches!(self.objective_type, ObjectiveType::LogLoss) {
                panic!("ProbabilityChange contributions method is only valid when LogLoss objective is used.")
            }
            return self.predict_contributions_probability_change(data, parallel);
        }
        self.predict_contributions_tree_alone(data, parallel, method)
    }

    fn predict_contributions_tree_alone(
        &self,
        data: &Matrix<f64>,
        parallel: bool,
        method: ContributionsMethod,
    ) -> Vec<f64> {
        let _ = parallel;
        let width = data.cols + 1;
        let mut contribs = vec![0.0; data.rows * width];
        contribs.iter_mut().skip(data.cols).step_by(width).for_each(|bias| *bias += self.base_score);
        let of_row = match method {
            ContributionsMethod::Shapley => predict_contributions_row_shapley,
            ContributionsMethod::ModeDifference => Tree::predict_contributions_row_mode_difference,
            ContributionsMethod::MidpointDifference => Tree::predict_contributions_row_midpoint_difference,
            ContributionsMethod::BranchDifference => Tree::predict_contributions_row_branch_difference,
            ContributionsMethod::Weight => Tree::predict_contributions_row_weight,
            _ => unreachable!(),
        };
        for (row, c) in data.index.iter().zip(contribs.chunks_mut(width)) {
            let values = data.get_row(*row);
            for tree in self.get_prediction_trees() {
                of_row(tree, &values, c, &self.missing);
            }
        }
        contribs
    }

    fn get_prediction_trees(&self) -> &[Tree] {
        let n = match self.prediction_iteration {
            Some(n) => n,
            None => self.trees.len(),
        };
        &self.trees[..n]
    }

    fn predict_contributions_average(&self, data: &Matrix<f64>, parallel: bool) -> Vec<f64> {
        let _ = parallel;
        let trees = self.get_prediction_trees();
        let mut averages: Vec<Vec<f64>> = Vec::new();
        for t in trees {
            averages.push(t.distribute_leaf_weights());
        }
        let width = data.cols + 1;
        let mut contribs = vec![0.0; data.rows * width];
        contribs.iter_mut().skip(data.cols).step_by(width).for_each(|bias| *bias += self.base_score);
        for (row, c) in data.index.iter().zip(contribs.chunks_mut(width)) {
            let values = data.get_row(*row);
            for (tree, w) in trees.iter().zip(&averages) {
                tree.predict_contributions_row_average(&values, c, w, &self.missing);
            }
        }
        contribs
    }

    fn predict_contributions_probability_change(&self, data: &Matrix<f64>, parallel: bool) -> Vec<f64> {
        let _ = parallel;
        let width = data.cols + 1;
        let mut contribs = vec![0.0; data.rows * width];
        contribs.iter_mut().skip(data.cols).step_by(width).for_each(|bias| *bias += odds(self.base_score));
        for (row, c) in data.index.iter().zip(contribs.chunks_mut(width)) {
            let values = data.get_row(*row);
            let mut log_odds = self.base_score;
            for tree in self.get_prediction_trees() {
                log_odds = tree.predict_contributions_row_probability_change(&values, c, &self.missing, log_odds);
            }
        }
        contribs
    }

    pub fn value_partial_dependence(&self, feature: usize, value: f64) -> f64 {
        let mut total = self.base_score;
        for tree in self.get_prediction_trees() {
            total += tree.value_partial_dependence(feature, value, &self.missing);
        }
        total
    }

    pub fn calculate_feature_importance(&self, method: ImportanceMethod, normalize: bool) -> HashMap<usize, f32> {
        let stat: ImportanceFn = match method {
            ImportanceMethod::Weight => Tree::calculate_importance_weight,
            ImportanceMethod::Gain | ImportanceMethod::TotalGain => Tree::calculate_importance_gain,
            ImportanceMethod::Cover | ImportanceMethod::TotalCover => Tree::calculate_importance_cover,
        };
        let average = matches!(method, ImportanceMethod::Gain | ImportanceMethod::Cover);
        let mut stats = HashMap::new();
        for tree in &self.trees {
            stat(tree, &mut stats);
        }
        let importance = stats
            .iter()
            .map(|(feature, (total, count))| (*feature, if average { total / (*count as f32) } else { *total }))
            .collect::<HashMap<usize, f32>>();
        if !normalize {
            return importance;
        }
        let mut values: Vec<f32> = importance.values().copied().collect();
        values.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let total: f32 = values.iter().sum();
        importance.iter().map(|(feature, v)| (*feature, v / total)).collect()
    }

    pub fn save_booster(&self, path: &str) -> Result<(), ForustError> {
        let text = self.json_dump()?;
        fs::write(path, text).map_err(|e| ForustError::UnableToWrite(e.to_string()))
    }

    pub fn json_dump(&self) -> Result<String, ForustError> {
        serde_json::to_string(self).map_err(|e| ForustError::UnableToWrite(e.to_string()))
    }

    pub fn from_json(json_str: &str) -> Result<Self, ForustError> {
        serde_json::from_str::<GradientBooster>(json_str).map_err(|e| ForustError::UnableToRead(e.to_string()))
    }

    pub fn load_booster(path: &str) -> Result<Self, ForustError> {
        let text = fs::read_to_string(path).map_err(|e| ForustError::UnableToRead(e.to_string()))?;
        Self::from_json(&text)
    }
}

fn name_of(field: &str) -> &str {
    field.split(".").nth(1).unwrap()
}

macro_rules! setters {
    ($($set:ident $field:ident $t:ty;)*) => {
        impl GradientBooster {
            $(pub fn $set(mut self, $field: $t) -> Self {
                self.$field = $field;
                self
            })*
        }
    };
}
setters! {
    set_objective_type objective_type ObjectiveType;
    set_iterations iterations usize;
    set_learning_rate learning_rate f32;
    set_max_depth max_depth usize;
    set_max_leaves max_leaves usize;
    set_nbins nbins u16;
    set_l1 l1 f32;
    set_l2 l2 f32;
    set_gamma gamma f32;
    set_max_delta_step max_delta_step f32;
    set_min_leaf_weight min_leaf_weight f32;
    set_base_score base_score f64;
    set_initialize_base_score initialize_base_score bool;
    set_parallel parallel bool;
    set_allow_missing_splits allow_missing_splits bool;
    set_monotone_constraints monotone_constraints Option<ConstraintMap>;
    set_subsample subsample f32;
    set_colsample_bytree colsample_bytree f64;
    set_seed seed u64;
    set_missing missing f64;
    set_create_missing_branch create_missing_branch bool;
    set_sample_method sample_method SampleMethod;
    set_evaluation_metric evaluation_metric Option<Metric>;
    set_early_stopping_rounds early_stopping_rounds Option<usize>;
    set_terminate_missing_features terminate_missing_features HashSet<usize>;
}

impl GradientBooster {
    pub fn set_prediction_iteration(mut self, prediction_iteration: Option<usize>) -> Self {
        self.prediction_iteration = match prediction_iteration {
            Some(i) => Some(i + 1),
            None => None,
        };
        self
    }

    pub fn insert_metadata(&mut self, key: String, value: String) {
        self.metadata.insert(key, value);
    }

    pub fn get_metadata(&self, key: &String) -> Option<String> {
        match self.metadata.get(key) {
            Some(v) => Some(v.clone()),
            None => None,
        }
    }
}
