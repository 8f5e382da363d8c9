"""fifth set: the booster itself (fit, fit_trees, contributions, partial dependence, importance), and functions added to C29-C32"""
from refactors import r
G = 'src/gradientbooster.rs'; U = 'src/utils.rs'; B = 'src/binning.rs'; T = 'src/tree.rs'
r('U5_mapbin_pp', (U, """    let mut low = 0;
    let mut high = x.len();
    while low != high {
        let mid = (low + high) / 2;
        // This will always be false for NaNs.
        // This it will force us to the bottom,
        // and thus Zero.
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()""", """    let bin = x.partition_point(|cut| *cut <= *v);
    u16::try_from(bin).ok()"""))
r('U5_mapbin_half', (U, """    let mut low = 0;
    let mut high = x.len();
    while low != high {
        let mid = (low + high) / 2;
        // This will always be false for NaNs.
        // This it will force us to the bottom,
        // and thus Zero.
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()""", """    let (mut first, mut last) = (0, x.len());
    while first < last {
        let mid = first + (last - first) / 2;
        if x[mid] > *v {
            last = mid;
        } else {
            first = mid + 1;
        }
    }
    u16::try_from(first).ok()"""))
r('U5_mapbin_lin', (U, """    let mut low = 0;
    let mut high = x.len();
    while low != high {
        let mid = (low + high) / 2;
        // This will always be false for NaNs.
        // This it will force us to the bottom,
        // and thus Zero.
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()""", """    let bin = x.iter().position(|c| !(c <= v)).unwrap_or(x.len());
    u16::try_from(bin).ok()"""))
r('G5_validate_eval', (G, """        if let Some(eval_data) = &evaluation_data {
            for (i, (_, eval_y, eval_sample_weight)) in eval_data.iter().enumerate() {
                validate_not_nan_vec(eval_y, format!("eval set {} y", i).to_string())?;
                validate_positive_not_nan_vec(
                    eval_sample_weight,
                    format!("eval set {} sample_weight", i).to_string(),
                )?;
            }
        }
""", """        Self::validate_evaluation_data(evaluation_data.as_deref().unwrap_or(&[]))?;
"""), (G, """    fn sample_index(
        &self,""", """    fn validate_evaluation_data(eval_data: &[EvaluationData]) -> Result<(), ForustError> {
        for (i, (_, eval_y, eval_sample_weight)) in eval_data.iter().enumerate() {
            validate_not_nan_vec(eval_y, format!("eval set {} y", i))?;
            validate_positive_not_nan_vec(
                eval_sample_weight,
                format!("eval set {} sample_weight", i),
            )?;
        }
        Ok(())
    }

    fn sample_index(
        &self,"""))
r('G5_validate_try', (G, """        if let Some(eval_data) = &evaluation_data {
            for (i, (_, eval_y, eval_sample_weight)) in eval_data.iter().enumerate() {
                validate_not_nan_vec(eval_y, format!("eval set {} y", i).to_string())?;
                validate_positive_not_nan_vec(
                    eval_sample_weight,
                    format!("eval set {} sample_weight", i).to_string(),
                )?;
            }
        }
""", """        for (i, eval_set) in evaluation_data.iter().flatten().enumerate() {
            validate_not_nan_vec(eval_set.1, format!("eval set {} y", i))?;
            validate_positive_not_nan_vec(eval_set.2, format!("eval set {} sample_weight", i))?;
        }
"""))
r('G5_cmap', (G, """        let constraints_map = self
            .monotone_constraints
            .as_ref()
            .unwrap_or(&ConstraintMap::new())
            .to_owned();""", """        let constraints_map = self.monotone_constraints.clone().unwrap_or_default();"""))
r('G5_cmap_match', (G, """        let constraints_map = self
            .monotone_constraints
            .as_ref()
            .unwrap_or(&ConstraintMap::new())
            .to_owned();""", """        let constraints_map = match &self.monotone_constraints {
            Some(map) => map.clone(),
            None => ConstraintMap::new(),
        };"""))
r('G5_split_fit', (G, """            self.fit_trees(y, sample_weight, data, &splitter, evaluation_data)?;
        } else {
            let splitter = MissingImputerSplitter {
                l1: self.l1,
                l2: self.l2,
                max_delta_step: self.max_delta_step,
                gamma: self.gamma,
                min_leaf_weight: self.min_leaf_weight,
                learning_rate: self.learning_rate,
                allow_missing_splits: self.allow_missing_splits,
                constraints_map,
            };
            self.fit_trees(y, sample_weight, data, &splitter, evaluation_data)?;
        };

        Ok(())""", """            return self.fit_trees(y, sample_weight, data, &splitter, evaluation_data);
        }
        let splitter = MissingImputerSplitter::new(
            self.l1,
            self.l2,
            self.max_delta_step,
            self.gamma,
            self.min_leaf_weight,
            self.learning_rate,
            self.allow_missing_splits,
            constraints_map,
        );
        self.fit_trees(y, sample_weight, data, &splitter, evaluation_data)"""))
r('G5_splitter_helper', (G, """            let splitter = MissingBranchSplitter {
                l1: self.l1,
                l2: self.l2,
                max_delta_step: self.max_delta_step,
                gamma: self.gamma,
                min_leaf_weight: self.min_leaf_weight,
                learning_rate: self.learning_rate,
                allow_missing_splits: self.allow_missing_splits,
                constraints_map,
                terminate_missing_features: self.terminate_missing_features.clone(),
                missing_node_treatment: self.missing_node_treatment,
                force_children_to_bound_parent: self.force_children_to_bound_parent,
            };
""", """            let splitter = self.missing_branch_splitter(constraints_map);
"""), (G, """    fn sample_index(
        &self,""", """    fn missing_branch_splitter(&self, constraints_map: ConstraintMap) -> MissingBranchSplitter {
        MissingBranchSplitter {
            force_children_to_bound_parent: self.force_children_to_bound_parent,
            missing_node_treatment: self.missing_node_treatment,
            terminate_missing_features: self.terminate_missing_features.clone(),
            l1: self.l1,
            l2: self.l2,
            max_delta_step: self.max_delta_step,
            gamma: self.gamma,
            min_leaf_weight: self.min_leaf_weight,
            learning_rate: self.learning_rate,
            allow_missing_splits: self.allow_missing_splits,
            constraints_map,
        }
    }

    fn sample_index(
        &self,"""))
r('G5_metric', (G, """        let metric = match &self.evaluation_metric {
            None => match self.objective_type {
                ObjectiveType::LogLoss => LogLoss::default_metric(),
                ObjectiveType::SquaredLoss => SquaredLoss::default_metric(),
            },
            Some(v) => *v,
        };
        metric_callables(&metric)""", """        let metric = self
            .evaluation_metric
            .unwrap_or_else(|| match self.objective_type {
                ObjectiveType::LogLoss => LogLoss::default_metric(),
                ObjectiveType::SquaredLoss => SquaredLoss::default_metric(),
            });
        metric_callables(&metric)"""))
r('G5_sample', (G, """        match self.sample_method {
            SampleMethod::None => (index.to_owned(), Vec::new()),
            SampleMethod::Random => {
                RandomSampler::new(self.subsample).sample(rng, index, grad, hess)
            }
            SampleMethod::Goss => {
                GossSampler::new(self.top_rate, self.other_rate).sample(rng, index, grad, hess)
            }
        }""", """        match self.sample_method {
            SampleMethod::Goss => {
                let mut sampler = GossSampler::new(self.top_rate, self.other_rate);
                sampler.sample(rng, index, grad, hess)
            }
            SampleMethod::Random => {
                let mut sampler = RandomSampler::new(self.subsample);
                sampler.sample(rng, index, grad, hess)
            }
            SampleMethod::None => (index.to_vec(), vec![]),
        }"""))
r('G5_colsample_helper', (G, """            // If we are doing any column sampling...
            let colsample_index: Vec<usize> = if self.colsample_bytree == 1.0 {
                Vec::new()
            } else {
                let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
                let mut v: Vec<usize> = col_index
                    .iter()
                    .choose_multiple(&mut rng, amount)
                    .iter()
                    .map(|i| **i)
                    .collect();
                v.sort();
                v
            };

            let fit_col_index = if self.colsample_bytree == 1.0 {
                &col_index
            } else {
                &colsample_index
            };
""", """            // If we are doing any column sampling...
            let colsample_index = self.sample_columns(&mut rng, &col_index);
            let fit_col_index = colsample_index.as_ref().unwrap_or(&col_index);
"""), (G, """    fn sample_index(
        &self,""", """    fn sample_columns(&self, rng: &mut StdRng, col_index: &[usize]) -> Option<Vec<usize>> {
        if self.colsample_bytree == 1.0 {
            return None;
        }
        let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
        let mut columns: Vec<usize> = col_index.iter().copied().choose_multiple(rng, amount);
        columns.sort_unstable();
        Some(columns)
    }

    fn sample_index(
        &self,"""))
r('G5_verbose_and', (G, """            let verbose = if self.log_iterations == 0 {
                false
            } else {
                i % self.log_iterations == 0
            };""", """            let verbose = self.log_iterations != 0 && i % self.log_iterations == 0;"""))
r('G5_eval_init', (G, """        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> =
            evaluation_data.as_ref().map(|evals| {
                evals
                    .iter()
                    .map(|(d, y, w)| (d, *y, *w, vec![self.base_score; y.len()]))
                    .collect()
            });
""", """        let base_score = self.base_score;
        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> = match &evaluation_data {
            Some(evals) => {
                let mut sets = Vec::with_capacity(evals.len());
                for (d, y, w) in evals {
                    sets.push((d, *y, *w, vec![base_score; y.len()]));
                }
                Some(sets)
            }
            None => None,
        };
"""))
r('G5_history_get', (G, """                if self.evaluation_history.is_none() {
                    self.evaluation_history =
                        Some(RowMajorMatrix::new(Vec::new(), 0, eval_sets.len()));
                }
                let mut metrics: Vec<f64> = Vec::new();
                let n_eval_sets = eval_sets.len();""", """                let n_eval_sets = eval_sets.len();
                self.evaluation_history
                    .get_or_insert_with(|| RowMajorMatrix::new(Vec::new(), 0, n_eval_sets));
                let mut metrics: Vec<f64> = Vec::with_capacity(n_eval_sets);"""))
r('G5_history_late', (G, """                if self.evaluation_history.is_none() {
                    self.evaluation_history =
                        Some(RowMajorMatrix::new(Vec::new(), 0, eval_sets.len()));
                }
                let mut metrics""", """                let mut metrics"""), (G, """                if let Some(history) = &mut self.evaluation_history {
                    history.append_row(metrics);
                }""", """                self.evaluation_history
                    .get_or_insert_with(|| RowMajorMatrix::new(Vec::new(), 0, n_eval_sets))
                    .append_row(metrics);"""))
r('G5_metric_hoist', (G, """                let n_eval_sets = eval_sets.len();
                for (eval_i""", """                let n_eval_sets = eval_sets.len();
                let (metric_fn, maximize) = self.get_metric_fn();
                for (eval_i"""), (G, """                    let (metric_fn, maximize) = self.get_metric_fn();
                    let m = metric""", """                    let m = metric"""))
r('G5_metric_hoist2', (G, """        let mut best_metric: Option<f64> = None;
""", """        let mut best_metric: Option<f64> = None;
        let (metric_fn, maximize) = self.get_metric_fn();
"""), (G, """                    let (metric_fn, maximize) = self.get_metric_fn();
                    let m = metric""", """                    let m = metric"""))
r('G5_early_after', (G, """                    // If early stopping rounds are defined, and this is the last
                    // eval dataset, check if we want to stop or keep training.
                    // Updating to align with XGBoost, originally we were using the first
                    // dataset, but switching to use the last.
                    if (eval_i + 1) == n_eval_sets {
                        if let Some(early_stopping_rounds) = self.early_stopping_rounds {
                            // If best metric is undefined, this must be the first
                            // iteration...
                            best_metric = match best_metric {
                                None => {
                                    self.update_best_iteration(i);
                                    Some(m)
                                }
                                // Otherwise the best could be farther back.
                                Some(v) => {
                                    // We have reached a new best value...
                                    if is_comparison_better(v, m, maximize) {
                                        self.update_best_iteration(i);
                                        Some(m)
                                    } else {
                                        // Previous value was better.
                                        if let Some(best_iteration) = self.best_iteration {
                                            if i - best_iteration >= early_stopping_rounds {
                                                // If any logging is requested, print this message.
                                                if self.log_iterations > 0 {
                                                    info!("Stopping early at iteration {} with metric value {}", i, m)
                                                }
                                                stop_early = true;
                                            }
                                        }
                                        Some(v)
                                    }
                                }
                            };
                        }
                    }
                    metrics.push(m);""", """                    if eval_i == n_eval_sets - 1 {
                        if let Some(rounds) = self.early_stopping_rounds {
                            let improved = match best_metric {
                                Some(best) => is_comparison_better(best, m, maximize),
                                None => true,
                            };
                            if improved {
                                best_metric = Some(m);
                                self.update_best_iteration(i);
                            } else if let Some(best_iteration) = self.best_iteration {
                                if i - best_iteration >= rounds {
                                    if self.log_iterations > 0 {
                                        info!("Stopping early at iteration {} with metric value {}", i, m)
                                    }
                                    stop_early = true;
                                }
                            }
                        }
                    }
                    metrics.push(m);"""))
r('G5_early_fn', (G, """                            best_metric = match best_metric {
                                None => {
                                    self.update_best_iteration(i);
                                    Some(m)
                                }
                                // Otherwise the best could be farther back.
                                Some(v) => {
                                    // We have reached a new best value...
                                    if is_comparison_better(v, m, maximize) {
                                        self.update_best_iteration(i);
                                        Some(m)
                                    } else {
                                        // Previous value was better.
                                        if let Some(best_iteration) = self.best_iteration {
                                            if i - best_iteration >= early_stopping_rounds {
                                                // If any logging is requested, print this message.
                                                if self.log_iterations > 0 {
                                                    info!("Stopping early at iteration {} with metric value {}", i, m)
                                                }
                                                stop_early = true;
                                            }
                                        }
                                        Some(v)
                                    }
                                }
                            };
""", """                            stop_early |= self.check_early_stopping(
                                i,
                                m,
                                maximize,
                                early_stopping_rounds,
                                &mut best_metric,
                            );
"""), (G, """    fn update_best_iteration(""", """    fn check_early_stopping(
        &mut self,
        i: usize,
        m: f64,
        maximize: bool,
        rounds: usize,
        best_metric: &mut Option<f64>,
    ) -> bool {
        if let Some(v) = *best_metric {
            if !is_comparison_better(v, m, maximize) {
                let stop = self.best_iteration.map_or(false, |b| i - b >= rounds);
                if stop && self.log_iterations > 0 {
                    info!("Stopping early at iteration {} with metric value {}", i, m);
                }
                return stop;
            }
        }
        self.update_best_iteration(i);
        *best_metric = Some(m);
        false
    }

    fn update_best_iteration("""))
r('G5_push_first', (G, """            self.update_predictions_inplace(&mut yhat, &tree, data);

            // Update Evaluation""", """            let preds = tree.predict(data, self.parallel, &self.missing);
            for (total, pred) in yhat.iter_mut().zip(preds.iter()) {
                *total += *pred;
            }

            // Update Evaluation"""))
r('G5_grad_tail', (G, """            // Did we trigger the early stopping rounds criteria?
            if stop_early {
                break;
            }

            (grad, hess) = calc_grad_hess(y, &yhat, sample_weight);
            if verbose {
                info!("Completed iteration {} of {}", i, self.iterations);
            }
""", """            // Did we trigger the early stopping rounds criteria?
            if !stop_early {
                let gh = calc_grad_hess(y, &yhat, sample_weight);
                grad = gh.0;
                hess = gh.1;
                if verbose {
                    info!("Completed iteration {} of {}", i, self.iterations);
                }
            } else {
                break;
            }
"""))
r('G5_grad_head', (G, """        let (mut grad, mut hess) = calc_grad_hess(y, &yhat, sample_weight);

""", """
"""), (G, """            // We will eventually use the excluded index.
""", """            let (mut grad, mut hess) = calc_grad_hess(y, &yhat, sample_weight);
            // We will eventually use the excluded index.
"""), (G, """            (grad, hess) = calc_grad_hess(y, &yhat, sample_weight);
            if verbose""", """            if verbose"""))
r('G5_while', (G, """        for i in 0..self.iterations {
            let verbose""", """        let n_iterations = self.iterations;
        for i in 0..n_iterations {
            let verbose"""), (G, """            let (chosen_index, _excluded_index) =
                self.sample_index(&mut rng, &data.index, &mut grad, &mut hess);
            let mut tree = Tree::new();
""", """            let mut tree = Tree::new();
            let (chosen_index, _) =
                self.sample_index(&mut rng, &data.index, &mut grad, &mut hess);
"""))
r('G5_upd_preds', (G, """        let preds = tree.predict(data, self.parallel, &self.missing);
        yhat.iter_mut().zip(preds).for_each(|(i, j)| *i += j);""", """        for (yhat_, pred) in yhat
            .iter_mut()
            .zip(tree.predict(data, self.parallel, &self.missing))
        {
            *yhat_ += pred;
        }"""))
r('G5_predict_fold', (G, """        let mut init_preds = vec![self.base_score; data.rows];
        self.get_prediction_trees().iter().for_each(|tree| {
            for (p_, val) in init_preds
                .iter_mut()
                .zip(tree.predict(data, parallel, &self.missing))
            {
                *p_ += val;
            }
        });
        init_preds""", """        self.get_prediction_trees()
            .iter()
            .map(|tree| tree.predict(data, parallel, &self.missing))
            .fold(vec![self.base_score; data.rows], |mut acc, preds| {
                acc.iter_mut().zip(preds).for_each(|(a, p)| *a += p);
                acc
            })"""))
r('G5_predict_idx', (G, """        self.get_prediction_trees().iter().for_each(|tree| {
            for (p_, val) in init_preds
                .iter_mut()
                .zip(tree.predict(data, parallel, &self.missing))
            {
                *p_ += val;
            }
        });
        init_preds""", """        for tree in self.get_prediction_trees() {
            let preds = tree.predict(data, parallel, &self.missing);
            for i in 0..init_preds.len() {
                init_preds[i] += preds[i];
            }
        }
        init_preds"""))
r('G5_leaf_loop', (G, """        self.get_prediction_trees()
            .iter()
            .flat_map(|tree| tree.predict_leaf_indices(data, &self.missing))
            .collect()""", """        let trees = self.get_prediction_trees();
        let mut leaves = Vec::with_capacity(data.rows * trees.len());
        for tree in trees {
            leaves.extend(tree.predict_leaf_indices(data, &self.missing));
        }
        leaves"""))
r('G5_trees_match', (G, """        let n_iterations = self.prediction_iteration.unwrap_or(self.trees.len());
        &self.trees[..n_iterations]""", """        match self.prediction_iteration {
            Some(n) => &self.trees[0..n],
            None => &self.trees,
        }"""))
r('G5_avg_fn', (G, """        let weights: Vec<Vec<f64>> = if parallel {
            self.get_prediction_trees()
                .par_iter()
                .map(|t| t.distribute_leaf_weights())
                .collect()
        } else {
            self.get_prediction_trees()
                .iter()
                .map(|t| t.distribute_leaf_weights())
                .collect()
        };""", """        let trees = self.get_prediction_trees();
        let weights: Vec<Vec<f64>> = if parallel {
            trees.par_iter().map(Tree::distribute_leaf_weights).collect()
        } else {
            trees.iter().map(Tree::distribute_leaf_weights).collect()
        };"""))
r('G5_avg_row', (G, """                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees()
                        .iter()
                        .zip(weights.iter())
                        .for_each(|(t, w)| {
                            t.predict_contributions_row_average(&r_, c, w, &self.missing);
                        });
                });
        } else {
            data.index
                .iter()
                .zip(contribs.chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees()
                        .iter()
                        .zip(weights.iter())
                        .for_each(|(t, w)| {
                            t.predict_contributions_row_average(&r_, c, w, &self.missing);
                        });
                });
        }""", """                .for_each(|(row, c)| fill_row(*row, c));
        } else {
            for (row, c) in data.index.iter().zip(contribs.chunks_mut(data.cols + 1)) {
                fill_row(*row, c);
            }
        }"""), (G, """        // Clean this up..
        // materializing a row, and then passing that to all of the
        // trees seems to be the fastest approach (5X faster), we should test
        // something like this for normal predictions.
        if parallel {
            data.index
                .par_iter()
                .zip(contribs.par_chunks_mut(data.cols + 1))
                .for_each(|(row, c)| fill_row""", """        let fill_row = |row: usize, c: &mut [f64]| {
            let r_ = data.get_row(row);
            for (t, w) in self.get_prediction_trees().iter().zip(weights.iter()) {
                t.predict_contributions_row_average(&r_, c, w, &self.missing);
            }
        };
        if parallel {
            data.index
                .par_iter()
                .zip(contribs.par_chunks_mut(data.cols + 1))
                .for_each(|(row, c)| fill_row"""))
r('G5_bias_loop', (G, """        contribs
            .iter_mut()
            .skip(bias_idx - 1)
            .step_by(bias_idx)
            .for_each(|v| *v += odds(self.base_score));
""", """        let bias = odds(self.base_score);
        for row in 0..data.rows {
            contribs[row * bias_idx + data.cols] += bias;
        }
"""))
r('G5_bias_chunks', (G, """        contribs
            .iter_mut()
            .skip(bias_idx - 1)
            .step_by(bias_idx)
            .for_each(|v| *v += odds(self.base_score));
""", """        for row in contribs.chunks_mut(bias_idx) {
            row[data.cols] += odds(self.base_score);
        }
"""))
r('G5_prob_loop', (G, """                .iter()
                .zip(contribs.chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees()
                        .iter()
                        .fold(self.base_score, |acc, t| {
                            t.predict_contributions_row_probability_change(
                                &r_,
                                c,
                                &self.missing,
                                acc,
                            )
                        });
                });""", """                .iter()
                .zip(contribs.chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    let mut log_odds = self.base_score;
                    for t in self.get_prediction_trees() {
                        log_odds = t.predict_contributions_row_probability_change(
                            &r_,
                            c,
                            &self.missing,
                            log_odds,
                        );
                    }
                });"""))
r('G5_pd', (G, """        let pd: f64 = if self.parallel {
            self.get_prediction_trees()
                .par_iter()
                .map(|t| t.value_partial_dependence(feature, value, &self.missing))
                .collect::<Vec<f64>>()
                .iter()
                .sum()
        } else {
            self.get_prediction_trees()
                .iter()
                .map(|t| t.value_partial_dependence(feature, value, &self.missing))
                .sum()
        };
        pd + self.base_score""", """        let tree_pd = |t: &Tree| t.value_partial_dependence(feature, value, &self.missing);
        let trees = self.get_prediction_trees();
        let values: Vec<f64> = if self.parallel {
            trees.par_iter().map(tree_pd).collect()
        } else {
            trees.iter().map(tree_pd).collect()
        };
        self.base_score + values.into_iter().sum::<f64>()"""))
r('G5_contrib_if', (G, """        match method {
            ContributionsMethod::Average => self.predict_contributions_average(data, parallel),
            ContributionsMethod::ProbabilityChange => {
                match self.objective_type {
                    ObjectiveType::LogLoss => {},
                    _ => panic!("ProbabilityChange contributions method is only valid when LogLoss objective is used.")
                }
                self.predict_contributions_probability_change(data, parallel)
            }
            _ => self.predict_contributions_tree_alone(data, parallel, method),
        }""", """        if let ContributionsMethod::Average = method {
            return self.predict_contributions_average(data, parallel);
        }
        if let ContributionsMethod::ProbabilityChange = method {
            if !matches!(self.objective_type, ObjectiveType::LogLoss) {
                panic!("ProbabilityChange contributions method is only valid when LogLoss objective is used.")
            }
            return self.predict_contributions_probability_change(data, parallel);
        }
        self.predict_contributions_tree_alone(data, parallel, method)"""))
r('G5_rowfn_type', (G, """                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees().iter().for_each(|t| {
                        row_pred_fn(t, &r_, c, &self.missing);
                    });
                });
        } else {""", """                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    for t in self.get_prediction_trees() {
                        row_pred_fn(t, &r_, c, &self.missing);
                    }
                });
        } else {"""))
r('G5_imp_avg', (G, """        let importance = stats
            .iter()
            .map(|(k, (v, c))| {
                if average {
                    (*k, v / (*c as f32))
                } else {
                    (*k, *v)
                }
            })
            .collect::<HashMap<usize, f32>>();""", """        let importance: HashMap<usize, f32> = stats
            .into_iter()
            .map(|(k, (v, c))| {
                let value = if average { v / (c as f32) } else { v };
                (k, value)
            })
            .collect();"""))
r('G5_imp_loop', (G, """        let importance = stats
            .iter()
            .map(|(k, (v, c))| {
                if average {
                    (*k, v / (*c as f32))
                } else {
                    (*k, *v)
                }
            })
            .collect::<HashMap<usize, f32>>();""", """        let mut importance: HashMap<usize, f32> = HashMap::new();
        for (feature, (value, count)) in &stats {
            let v = if average {
                *value / (*count as f32)
            } else {
                *value
            };
            importance.insert(*feature, v);
        }"""))
r('G5_imp_iter', (G, """        for tree in self.trees.iter() {
            importance_fn(tree, &mut stats)
        }""", """        self.trees
            .iter()
            .for_each(|tree| importance_fn(tree, &mut stats));"""))
r('G5_base_score', (G, """        if self.initialize_base_score {
            self.base_score = calc_init_callables(&self.objective_type)(y, sample_weight);
        }
""", """        if self.initialize_base_score {
            let calc_init = calc_init_callables(&self.objective_type);
            self.base_score = calc_init(y, sample_weight);
        }
"""))
r('G5_reset_helper', (G, """        // Is this a booster that has already been fit? If it is, reset the trees.
        // In the future we could continue training.
        if !self.trees.is_empty() {
            self.reset()
        }
""", """        self.reset_if_fitted();
"""), (G, """    fn reset(&mut self) {""", """    fn reset_if_fitted(&mut self) {
        if self.trees.is_empty() {
            return;
        }
        self.reset();
    }

    fn reset(&mut self) {"""))
r('B5_pct_bins', (B, """    let mut pcts = Vec::new();
    let nbins_ = f64::from_u16(nbins);
    for i in 0..nbins {
        let v = f64::from_u16(i) / nbins_;
        pcts.push(v);
    }
""", """    let pcts: Vec<f64> = (0..nbins)
        .map(|i| f64::from(i) / f64::from(nbins))
        .collect();
"""))
r('B5_cuts_fn', (B, """        let mut col_cuts = percentiles_or_value(&no_miss, &w, &pcts);
        col_cuts.push(f64::MAX);
        col_cuts.dedup();
""", """        let col_cuts = column_cuts(&no_miss, &w, &pcts);
"""), (B, """/// Bin a numeric matrix.
///
/// * `data` - A""", """fn column_cuts(values: &[f64], weights: &[f64], pcts: &[f64]) -> Vec<f64> {
    let mut cuts = percentiles_or_value(values, weights, pcts);
    cuts.push(f64::MAX);
    cuts.dedup();
    cuts
}

/// Bin a numeric matrix.
///
/// * `data` - A"""))
