"""More refactorings: the booster."""
from refactors import R
GB = 'src/gradientbooster.rs'

BIAS = """        // Add the bias term to every bias value...
        let bias_idx = data.cols + 1;
        contribs
            .iter_mut()
            .skip(bias_idx - 1)
            .step_by(bias_idx)
            .for_each(|v| *v += self.base_score);

        let row_pred_fn"""
R['G3_bias_chunks'] = [(GB, BIAS, """        for row in contribs.chunks_mut(data.cols + 1) {
            row[data.cols] += self.base_score;
        }

        let row_pred_fn""")]
R['G3_bias_vec'] = [(GB, """        let mut contribs = vec![0.; (data.cols + 1) * data.rows];

""" + BIAS, """        let width = data.cols + 1;
        let mut contribs = vec![0.; width * data.rows];
        let mut at = width - 1;
        while at < contribs.len() {
            contribs[at] += self.base_score;
            at += width;
        }

        let row_pred_fn""")]
R['G3_bias_method'] = [(GB, """        let mut contribs = vec![0.; (data.cols + 1) * data.rows];

""" + BIAS, """        let mut contribs = Self::empty_contributions(data, self.base_score);

        let row_pred_fn"""), (GB, """    /// Get the a reference to the trees for predicting""", """    fn empty_contributions(data: &Matrix<f64>, bias: f64) -> Vec<f64> {
        let n = data.cols + 1;
        let mut contribs = vec![0.; n * data.rows];
        contribs.iter_mut().skip(n - 1).step_by(n).for_each(|v| *v += bias);
        contribs
    }

    /// Get the a reference to the trees for predicting""")]
R['G3_alone_closure'] = [(GB, """        if parallel {
            data.index
                .par_iter()
                .zip(contribs.par_chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees().iter().for_each(|t| {
                        row_pred_fn(t, &r_, c, &self.missing);
                    });
                });
        } else {
            data.index
                .iter()
                .zip(contribs.chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees().iter().for_each(|t| {
                        row_pred_fn(t, &r_, c, &self.missing);
                    });
                });
        }
""", """        let n_out = data.cols + 1;
        let trees = self.get_prediction_trees();
        let explain_row = |row: &usize, c: &mut [f64]| {
            let values = data.get_row(*row);
            for tree in trees {
                row_pred_fn(tree, &values, c, &self.missing);
            }
        };
        if parallel {
            data.index
                .par_iter()
                .zip(contribs.par_chunks_mut(n_out))
                .for_each(|(row, c)| explain_row(row, c));
        } else {
            for (row, c) in data.index.iter().zip(contribs.chunks_mut(n_out)) {
                explain_row(row, c);
            }
        }
""")]
R['G3_alone_swap'] = [(GB, """        if parallel {
            data.index
                .par_iter()
                .zip(contribs.par_chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees().iter().for_each(|t| {
                        row_pred_fn(t, &r_, c, &self.missing);
                    });
                });
        } else {
            data.index
                .iter()
                .zip(contribs.chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees().iter().for_each(|t| {
                        row_pred_fn(t, &r_, c, &self.missing);
                    });
                });
        }
""", """        if !parallel {
            contribs
                .chunks_mut(data.cols + 1)
                .zip(data.index.iter())
                .for_each(|(c, &row)| {
                    let r_ = data.get_row(row);
                    for t in self.get_prediction_trees().iter() {
                        row_pred_fn(t, &r_, c, &self.missing);
                    }
                });
            return contribs;
        }
        contribs
            .par_chunks_mut(data.cols + 1)
            .zip(data.index.par_iter())
            .for_each(|(c, row)| {
                let r_ = data.get_row(*row);
                self.get_prediction_trees()
                    .iter()
                    .for_each(|t| row_pred_fn(t, &r_, c, &self.missing));
            });
""")]
R['G3_avg_loop'] = [(GB, """            data.index
                .iter()
                .zip(contribs.chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees()
                        .iter()
                        .zip(weights.iter())
                        .for_each(|(t, w)| {
                            t.predict_contributions_row_average(&r_, c, w, &self.missing);
                        });
                });
""", """            for (row, c) in data.index.iter().zip(contribs.chunks_mut(data.cols + 1)) {
                let r_ = data.get_row(*row);
                for (tree_idx, t) in self.get_prediction_trees().iter().enumerate() {
                    t.predict_contributions_row_average(&r_, c, &weights[tree_idx], &self.missing);
                }
            }
""")]
R['G3_avg_trees'] = [(GB, """        let weights: Vec<Vec<f64>> = if parallel {
            self.get_prediction_trees()
                .par_iter()
                .map(|t| t.distribute_leaf_weights())
                .collect()
        } else {
            self.get_prediction_trees()
                .iter()
                .map(|t| t.distribute_leaf_weights())
                .collect()
        };
""", """        let trees = self.get_prediction_trees();
        let mut weights: Vec<Vec<f64>> = Vec::with_capacity(trees.len());
        if parallel {
            weights = trees.par_iter().map(Tree::distribute_leaf_weights).collect();
        } else {
            for tree in trees {
                weights.push(tree.distribute_leaf_weights());
            }
        }
""")]
R['G3_prob_loop'] = [(GB, """            data.index
                .iter()
                .zip(contribs.chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees()
                        .iter()
                        .fold(self.base_score, |acc, t| {
                            t.predict_contributions_row_probability_change(
                                &r_,
                                c,
                                &self.missing,
                                acc,
                            )
                        });
                });
""", """            for (row, c) in data.index.iter().zip(contribs.chunks_mut(data.cols + 1)) {
                let r_ = data.get_row(*row);
                let mut running = self.base_score;
                for t in self.get_prediction_trees() {
                    running = t.predict_contributions_row_probability_change(&r_, c, &self.missing, running);
                }
            }
""")]
R['G3_dispatch'] = [(GB, """        match method {
            ContributionsMethod::Average => self.predict_contributions_average(data, parallel),
            ContributionsMethod::ProbabilityChange => {
                match self.objective_type {
                    ObjectiveType::LogLoss => {},
                    _ => panic!("ProbabilityChange contributions method is only valid when LogLoss objective is used.")
                }
                self.predict_contributions_probability_change(data, parallel)
            }
            _ => self.predict_contributions_tree_alone(data, parallel, method),
        }
""", """        if let ContributionsMethod::Average = method {
            return self.predict_contributions_average(data, parallel);
        }
        if let ContributionsMethod::ProbabilityChange = method {
            if !matches!(self.objective_type, ObjectiveType::LogLoss) {
                panic!("ProbabilityChange contributions method is only valid when LogLoss objective is used.");
            }
            return self.predict_contributions_probability_change(data, parallel);
        }
        self.predict_contributions_tree_alone(data, parallel, method)
""")]
R['G3_pd_fold'] = [(GB, """        let pd: f64 = if self.parallel {
            self.get_prediction_trees()
                .par_iter()
                .map(|t| t.value_partial_dependence(feature, value, &self.missing))
                .collect::<Vec<f64>>()
                .iter()
                .sum()
        } else {
            self.get_prediction_trees()
                .iter()
                .map(|t| t.value_partial_dependence(feature, value, &self.missing))
                .sum()
        };
        pd + self.base_score
""", """        let trees = self.get_prediction_trees();
        let tree_value = |t: &Tree| t.value_partial_dependence(feature, value, &self.missing);
        if self.parallel {
            let values: Vec<f64> = trees.par_iter().map(tree_value).collect();
            values.iter().sum::<f64>() + self.base_score
        } else {
            trees.iter().map(tree_value).sum::<f64>() + self.base_score
        }
""")]
R['G3_pd_loop'] = [(GB, """            self.get_prediction_trees()
                .iter()
                .map(|t| t.value_partial_dependence(feature, value, &self.missing))
                .sum()
        };
        pd + self.base_score
""", """            let mut total = 0.0;
            for t in self.get_prediction_trees() {
                total += t.value_partial_dependence(feature, value, &self.missing);
            }
            total
        };
        self.base_score + pd
""")]
R['G3_trees_match'] = [(GB, """        let n_iterations = self.prediction_iteration.unwrap_or(self.trees.len());
        &self.trees[..n_iterations]
""", """        match self.prediction_iteration {
            Some(n) => &self.trees[..n],
            None => &self.trees,
        }
""")]
R['G3_update_loop'] = [(GB, """        let preds = tree.predict(data, self.parallel, &self.missing);
        yhat.iter_mut().zip(preds).for_each(|(i, j)| *i += j);
""", """        let preds = tree.predict(data, self.parallel, &self.missing);
        for (idx, pred) in preds.iter().enumerate() {
            yhat[idx] += pred;
        }
""")]
R['G3_predict_fold'] = [(GB, """        let mut init_preds = vec![self.base_score; data.rows];
        self.get_prediction_trees().iter().for_each(|tree| {
            for (p_, val) in init_preds
                .iter_mut()
                .zip(tree.predict(data, parallel, &self.missing))
            {
                *p_ += val;
            }
        });
        init_preds
""", """        let init_preds = vec![self.base_score; data.rows];
        self.get_prediction_trees()
            .iter()
            .fold(init_preds, |acc, tree| {
                let preds = tree.predict(data, parallel, &self.missing);
                acc.into_iter().zip(preds).map(|(a, p)| a + p).collect()
            })
""")]
R['G3_leaf_loop'] = [(GB, """        self.get_prediction_trees()
            .iter()
            .flat_map(|tree| tree.predict_leaf_indices(data, &self.missing))
            .collect()
""", """        let trees = self.get_prediction_trees();
        let mut leaves = Vec::with_capacity(trees.len() * data.rows);
        for tree in trees {
            leaves.extend(tree.predict_leaf_indices(data, &self.missing));
        }
        leaves
""")]
R['G3_unweighted'] = [(GB, """        let sample_weight = vec![1.0; data.rows];
        self.fit(data, y, &sample_weight, evaluation_data)
""", """        let mut sample_weight = Vec::with_capacity(data.rows);
        for _ in 0..data.rows {
            sample_weight.push(1.0);
        }
        let result = self.fit(data, y, sample_weight.as_slice(), evaluation_data);
        result
""")]
R['G3_metricfn'] = [(GB, """        let metric = match &self.evaluation_metric {
            None => match self.objective_type {
                ObjectiveType::LogLoss => LogLoss::default_metric(),
                ObjectiveType::SquaredLoss => SquaredLoss::default_metric(),
            },
            Some(v) => *v,
        };
        metric_callables(&metric)
""", """        let metric = self.evaluation_metric.unwrap_or_else(|| match self.objective_type {
            ObjectiveType::LogLoss => LogLoss::default_metric(),
            ObjectiveType::SquaredLoss => SquaredLoss::default_metric(),
        });
        metric_callables(&metric)
""")]
R['G3_fit_validate'] = [(GB, """        if let Some(eval_data) = &evaluation_data {
            for (i, (_, eval_y, eval_sample_weight)) in eval_data.iter().enumerate() {
                validate_not_nan_vec(eval_y, format!("eval set {} y", i).to_string())?;
                validate_positive_not_nan_vec(
                    eval_sample_weight,
                    format!("eval set {} sample_weight", i).to_string(),
                )?;
            }
        }

        let constraints_map""", """        Self::validate_evaluation_data(&evaluation_data)?;

        let constraints_map"""), (GB, """    fn sample_index(
        &self,""", """    fn validate_evaluation_data(evaluation_data: &Option<Vec<EvaluationData>>) -> Result<(), ForustError> {
        let sets = match evaluation_data {
            Some(sets) => sets,
            None => return Ok(()),
        };
        for (i, set) in sets.iter().enumerate() {
            let (_, eval_y, eval_sample_weight) = set;
            validate_not_nan_vec(eval_y, format!("eval set {} y", i))?;
            validate_positive_not_nan_vec(eval_sample_weight, format!("eval set {} sample_weight", i))?;
        }
        Ok(())
    }

    fn sample_index(
        &self,""")]
R['G3_fit_constraints'] = [(GB, """        let constraints_map = self
            .monotone_constraints
            .as_ref()
            .unwrap_or(&ConstraintMap::new())
            .to_owned();
""", """        let constraints_map = match &self.monotone_constraints {
            Some(map) => map.clone(),
            None => ConstraintMap::new(),
        };
""")]
R['G3_fit_constraints2'] = [(GB, """        let constraints_map = self
            .monotone_constraints
            .as_ref()
            .unwrap_or(&ConstraintMap::new())
            .to_owned();
""", """        let constraints_map = self.monotone_constraints.clone().unwrap_or_default();
""")]
R['G3_fit_ret'] = [(GB, """            self.fit_trees(y, sample_weight, data, &splitter, evaluation_data)?;
        };

        Ok(())
    }
""", """            self.fit_trees(y, sample_weight, data, &splitter, evaluation_data)?;
        }
        return Ok(());
    }
"""), (GB, """            self.fit_trees(y, sample_weight, data, &splitter, evaluation_data)?;
        } else {""", """            return self.fit_trees(y, sample_weight, data, &splitter, evaluation_data);
        } else {""")]
R['G3_ft_cols'] = [(GB, """            let colsample_index: Vec<usize> = if self.colsample_bytree == 1.0 {
                Vec::new()
            } else {
                let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
                let mut v: Vec<usize> = col_index
                    .iter()
                    .choose_multiple(&mut rng, amount)
                    .iter()
                    .map(|i| **i)
                    .collect();
                v.sort();
                v
            };

            let fit_col_index = if self.colsample_bytree == 1.0 {
                &col_index
            } else {
                &colsample_index
            };
""", """            let sampled_columns: Vec<usize>;
            let fit_col_index = if self.colsample_bytree != 1.0 {
                let amount = (self.colsample_bytree * (col_index.len() as f64)).floor() as usize;
                let mut chosen: Vec<usize> = col_index
                    .iter()
                    .choose_multiple(&mut rng, amount)
                    .into_iter()
                    .copied()
                    .collect();
                chosen.sort_unstable();
                sampled_columns = chosen;
                &sampled_columns
            } else {
                &col_index
            };
""")]
R['G3_ft_colfn'] = [(GB, """            let colsample_index: Vec<usize> = if self.colsample_bytree == 1.0 {
                Vec::new()
            } else {
                let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
                let mut v: Vec<usize> = col_index
                    .iter()
                    .choose_multiple(&mut rng, amount)
                    .iter()
                    .map(|i| **i)
                    .collect();
                v.sort();
                v
            };

            let fit_col_index = if self.colsample_bytree == 1.0 {
                &col_index
            } else {
                &colsample_index
            };
""", """            let colsample_index = self.sample_columns(&col_index, &mut rng);
            let fit_col_index = if self.colsample_bytree == 1.0 {
                &col_index
            } else {
                &colsample_index
            };
"""), (GB, """    fn update_best_iteration(""", """    fn sample_columns(&self, col_index: &[usize], rng: &mut StdRng) -> Vec<usize> {
        if self.colsample_bytree == 1.0 {
            return Vec::new();
        }
        let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
        let mut v: Vec<usize> = col_index
            .iter()
            .choose_multiple(rng, amount)
            .iter()
            .map(|i| **i)
            .collect();
        v.sort();
        v
    }

    fn update_best_iteration(""")]
R['G3_ft_stopfn'] = [(GB, """                            best_metric = match best_metric {
                                None => {
                                    self.update_best_iteration(i);
                                    Some(m)
                                }
                                // Otherwise the best could be farther back.
                                Some(v) => {
                                    // We have reached a new best value...
                                    if is_comparison_better(v, m, maximize) {
                                        self.update_best_iteration(i);
                                        Some(m)
                                    } else {
                                        // Previous value was better.
                                        if let Some(best_iteration) = self.best_iteration {
                                            if i - best_iteration >= early_stopping_rounds {
                                                // If any logging is requested, print this message.
                                                if self.log_iterations > 0 {
                                                    info!("Stopping early at iteration {} with metric value {}", i, m)
                                                }
                                                stop_early = true;
                                            }
                                        }
                                        Some(v)
                                    }
                                }
                            };
""", """                            let improved = match best_metric {
                                None => true,
                                Some(v) => is_comparison_better(v, m, maximize),
                            };
                            if improved {
                                self.update_best_iteration(i);
                                best_metric = Some(m);
                            } else if let Some(best_iteration) = self.best_iteration {
                                if i - best_iteration >= early_stopping_rounds {
                                    if self.log_iterations > 0 {
                                        info!("Stopping early at iteration {} with metric value {}", i, m)
                                    }
                                    stop_early = true;
                                }
                            }
""")]
R['G3_ft_best2'] = [(GB, """                            best_metric = match best_metric {
                                None => {
                                    self.update_best_iteration(i);
                                    Some(m)
                                }
                                // Otherwise the best could be farther back.
                                Some(v) => {
                                    // We have reached a new best value...
                                    if is_comparison_better(v, m, maximize) {
                                        self.update_best_iteration(i);
                                        Some(m)
                                    } else {
                                        // Previous value was better.
                                        if let Some(best_iteration) = self.best_iteration {
                                            if i - best_iteration >= early_stopping_rounds {
""", """                            best_metric = match best_metric {
                                Some(v) if !is_comparison_better(v, m, maximize) => {
                                        if let Some(best_iteration) = self.best_iteration {
                                            let rounds_without_gain = i - best_iteration;
                                            if rounds_without_gain >= early_stopping_rounds {
"""), (GB, """                                        Some(v)
                                    }
                                }
                            };
                        }
                    }
                    metrics.push(m);""", """                                        Some(v)
                                }
                                _ => {
                                    self.update_best_iteration(i);
                                    Some(m)
                                }
                            };
                        }
                    }
                    metrics.push(m);""")]
R['G3_ft_evalhoist'] = [(GB, """                let mut metrics: Vec<f64> = Vec::new();
                let n_eval_sets = eval_sets.len();
                for (eval_i, (data, y, w, yhat)) in eval_sets.iter_mut().enumerate() {
                    self.update_predictions_inplace(yhat, &tree, data);
                    let (metric_fn, maximize) = self.get_metric_fn();
""", """                let n_eval_sets = eval_sets.len();
                let mut metrics: Vec<f64> = Vec::with_capacity(n_eval_sets);
                let (metric_fn, maximize) = self.get_metric_fn();
                for (eval_i, (data, y, w, yhat)) in eval_sets.iter_mut().enumerate() {
                    self.update_predictions_inplace(yhat, &tree, data);
""")]
R['G3_ft_last'] = [(GB, """                    if (eval_i + 1) == n_eval_sets {
                        if let Some(""", """                    let is_last_set = eval_i == n_eval_sets - 1;
                    if is_last_set {
                        if let Some(""")]
R['G3_ft_history'] = [(GB, """                if self.evaluation_history.is_none() {
                    self.evaluation_history =
                        Some(RowMajorMatrix::new(Vec::new(), 0, eval_sets.len()));
                }
""", """                let n_sets = eval_sets.len();
                self.evaluation_history
                    .get_or_insert_with(|| RowMajorMatrix::new(Vec::new(), 0, n_sets));
""")]
R['G3_ft_evalset'] = [(GB, """        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> =
            evaluation_data.as_ref().map(|evals| {
                evals
                    .iter()
                    .map(|(d, y, w)| (d, *y, *w, vec![self.base_score; y.len()]))
                    .collect()
            });
""", """        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> = match &evaluation_data {
            None => None,
            Some(evals) => {
                let mut sets = Vec::with_capacity(evals.len());
                for (d, y, w) in evals.iter() {
                    let start = vec![self.base_score; y.len()];
                    sets.push((d, *y, *w, start));
                }
                Some(sets)
            }
        };
""")]
R['G3_ft_verbose'] = [(GB, """            let verbose = if self.log_iterations == 0 {
                false
            } else {
                i % self.log_iterations == 0
            };
""", """            let verbose = self.should_log(i);
"""), (GB, """    fn update_best_iteration(""", """    fn should_log(&self, i: usize) -> bool {
        match self.log_iterations {
            0 => false,
            n => i % n == 0,
        }
    }

    fn update_best_iteration(""")]
R['G3_ft_while'] = [(GB, """        for i in 0..self.iterations {
            let verbose""", """        let mut i = 0;
        while i < self.iterations {
            let verbose"""), (GB, """            if verbose {
                info!("Completed iteration {} of {}", i, self.iterations);
            }
        }
""", """            if verbose {
                info!("Completed iteration {} of {}", i, self.iterations);
            }
            i += 1;
        }
""")]
R['G3_ft_init'] = [(GB, """        let mut rng = StdRng::seed_from_u64(self.seed);

        if self.initialize_base_score {
            self.base_score = calc_init_callables(&self.objective_type)(y, sample_weight);
        }

        let mut yhat = vec![self.base_score; y.len()];

        let calc_grad_hess = gradient_hessian_callables(&self.objective_type);
        let (mut grad, mut hess) = calc_grad_hess(y, &yhat, sample_weight);
""", """        if self.initialize_base_score {
            let calc_init = calc_init_callables(&self.objective_type);
            self.base_score = calc_init(y, sample_weight);
        }
        let start_score = self.base_score;
        let mut yhat: Vec<f64> = std::iter::repeat(start_score).take(y.len()).collect();

        let calc_grad_hess = gradient_hessian_callables(&self.objective_type);
        let (mut grad, mut hess) = calc_grad_hess(y, &yhat, sample_weight);
        let mut rng = StdRng::seed_from_u64(self.seed);
""")]
R['G3_sample_match'] = [(GB, """        match self.sample_method {
            SampleMethod::None => (index.to_owned(), Vec::new()),
            SampleMethod::Random => {
                RandomSampler::new(self.subsample).sample(rng, index, grad, hess)
            }
            SampleMethod::Goss => {
                GossSampler::new(self.top_rate, self.other_rate).sample(rng, index, grad, hess)
            }
        }
""", """        match self.sample_method {
            SampleMethod::Goss => {
                let mut sampler = GossSampler::new(self.top_rate, self.other_rate);
                sampler.sample(rng, index, grad, hess)
            }
            SampleMethod::Random => {
                let mut sampler = RandomSampler::new(self.subsample);
                sampler.sample(rng, index, grad, hess)
            }
            SampleMethod::None => {
                let all = index.to_vec();
                (all, vec![])
            }
        }
""")]
R['G3_imp_loop'] = [(GB, """        let importance = stats
            .iter()
            .map(|(k, (v, c))| {
                if average {
                    (*k, v / (*c as f32))
                } else {
                    (*k, *v)
                }
            })
            .collect::<HashMap<usize, f32>>();
""", """        let mut importance: HashMap<usize, f32> = HashMap::with_capacity(stats.len());
        for (feature, (total, count)) in stats.iter() {
            let value = if average { *total / (*count as f32) } else { *total };
            importance.insert(*feature, value);
        }
""")]
R['G3_imp_average'] = [(GB, """        let (average, importance_fn): (bool, ImportanceFn) = match method {
            ImportanceMethod::Weight => (false, Tree::calculate_importance_weight),
            ImportanceMethod::Gain => (true, Tree::calculate_importance_gain),
            ImportanceMethod::TotalGain => (false, Tree::calculate_importance_gain),
            ImportanceMethod::Cover => (true, Tree::calculate_importance_cover),
            ImportanceMethod::TotalCover => (false, Tree::calculate_importance_cover),
        };
""", """        let average = matches!(method, ImportanceMethod::Gain | ImportanceMethod::Cover);
        let importance_fn: ImportanceFn = match method {
            ImportanceMethod::Weight => Tree::calculate_importance_weight,
            ImportanceMethod::Gain | ImportanceMethod::TotalGain => Tree::calculate_importance_gain,
            ImportanceMethod::Cover | ImportanceMethod::TotalCover => Tree::calculate_importance_cover,
        };
""")]
R['G3_new_default'] = [(GB, """        booster.validate_parameters()?;
        Ok(booster)
""", """        match booster.validate_parameters() {
            Ok(()) => Ok(booster),
            Err(e) => Err(e),
        }
""")]
R['G3_reset_take'] = [(GB, """        self.trees = Vec::new();
        self.evaluation_history = None;
        self.best_iteration = None;
        self.prediction_iteration = None;
""", """        self.best_iteration = None;
        self.prediction_iteration = None;
        self.evaluation_history = None;
        self.trees.clear();
""")]
