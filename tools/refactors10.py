from refactors import r
G, T, N, S, B, U, H, D, M, O, SH, PD, SA, GR = ('src/%s.rs' % x for x in ('gradientbooster', 'tree', 'node', 'splitter', 'binning', 'utils', 'histogram', 'data', 'metric', 'objective', 'shapley', 'partial_dependence', 'sampler', 'grower'))
# the same thing through another part of the standard library
r('A10_sort_cmp', (G, "                v.sort();\n", "                v.sort_by(|a, b| a.cmp(b));\n"))
r('A10_sort_key', (G, "                v.sort();\n", "                v.sort_unstable_by_key(|c| *c);\n"))
r('A10_repeat', (G, "let mut yhat = vec![self.base_score; y.len()];", "let mut yhat: Vec<f64> = std::iter::repeat(self.base_score).take(y.len()).collect();"))
r('A10_map_base', (G, "let mut yhat = vec![self.base_score; y.len()];", "let mut yhat: Vec<f64> = y.iter().map(|_| self.base_score).collect();"))
r('A10_resize', (G, "let mut init_preds = vec![self.base_score; data.rows];", "let mut init_preds = Vec::with_capacity(data.rows);\n        init_preds.resize(data.rows, self.base_score);"))
r('A10_trees_get', (G, """        let n_iterations = self.prediction_iteration.unwrap_or(self.trees.len());
        &self.trees[..n_iterations]""", """        match self.prediction_iteration {
            Some(n) => &self.trees[0..n],
            None => self.trees.as_slice(),
        }"""))
r('A10_trees_maxor', (G, """        let n_iterations = self.prediction_iteration.unwrap_or(self.trees.len());
        &self.trees[..n_iterations]""", """        let n = self.prediction_iteration.map_or_else(|| self.trees.len(), |n| n);
        self.trees.split_at(n).0"""))
r('A10_update_best', (G, """        self.best_iteration = Some(i);
        self.prediction_iteration = Some(i + 1);""", """        self.best_iteration.replace(i);
        self.prediction_iteration = self.best_iteration.map(|b| b + 1);"""))
r('A10_metric_unwrap', (G, """        let metric = match &self.evaluation_metric {
            None => match self.objective_type {
                ObjectiveType::LogLoss => LogLoss::default_metric(),
                ObjectiveType::SquaredLoss => SquaredLoss::default_metric(),
            },
            Some(v) => *v,
        };
        metric_callables(&metric)""", """        let metric = self
            .evaluation_metric
            .unwrap_or_else(|| match self.objective_type {
                ObjectiveType::LogLoss => LogLoss::default_metric(),
                ObjectiveType::SquaredLoss => SquaredLoss::default_metric(),
            });
        metric_callables(&metric)"""))
r('A10_reset_take', (G, """        self.trees = Vec::new();
        self.evaluation_history = None;
        self.best_iteration = None;
        self.prediction_iteration = None;""", """        self.trees.clear();
        self.evaluation_history.take();
        let _ = self.best_iteration.take();
        let _ = std::mem::replace(&mut self.prediction_iteration, None);"""))
r('A10_constraints', (G, """            .as_ref()
            .unwrap_or(&ConstraintMap::new())
            .to_owned();""", """            .clone()
            .unwrap_or_default();"""))
r('A10_inplace_idx', (G, "        yhat.iter_mut().zip(preds).for_each(|(i, j)| *i += j);", """        for (k, p) in preds.into_iter().enumerate() {
            yhat[k] += p;
        }"""))
r('A10_leafidx_loop', (G, """        self.get_prediction_trees()
            .iter()
            .flat_map(|tree| tree.predict_leaf_indices(data, &self.missing))
            .collect()""", """        let mut out = Vec::new();
        for tree in self.get_prediction_trees() {
            out.append(&mut tree.predict_leaf_indices(data, &self.missing));
        }
        out"""))
r('A10_pd_fold', (G, """            self.get_prediction_trees()
                .iter()
                .map(|t| t.value_partial_dependence(feature, value, &self.missing))
                .sum()
        };
        pd + self.base_score""", """            self.get_prediction_trees().iter().fold(0., |acc, t| {
                acc + t.value_partial_dependence(feature, value, &self.missing)
            })
        };
        self.base_score + pd"""))
r('A10_bias_chunks', (G, """        contribs
            .iter_mut()
            .skip(bias_idx - 1)
            .step_by(bias_idx)
            .for_each(|v| *v += odds(self.base_score));""", """        contribs
            .chunks_mut(bias_idx)
            .for_each(|c| c[bias_idx - 1] += odds(self.base_score));"""))
r('A10_col_range', (G, "let col_index: Vec<usize> = (0..data.cols).collect();", "let col_index = Vec::from_iter(0..data.cols);"))
r('A10_chosen_copied', (G, """                    .choose_multiple(&mut rng, amount)
                    .iter()
                    .map(|i| **i)
                    .collect();""", """                    .choose_multiple(&mut rng, amount)
                    .into_iter()
                    .copied()
                    .collect();"""))
r('A10_chosen_copied2', (G, """                let mut v: Vec<usize> = col_index
                    .iter()
                    .choose_multiple(&mut rng, amount)
                    .iter()
                    .map(|i| **i)
                    .collect();""", """                let mut v: Vec<usize> = col_index
                    .iter()
                    .copied()
                    .choose_multiple(&mut rng, amount);"""))
r('A10_pct_total', (U, "idx.sort_unstable_by(|a, b| v[*a].partial_cmp(&v[*b]).unwrap());", "idx.sort_by(|a, b| v[*a].partial_cmp(&v[*b]).unwrap_or(Ordering::Equal));"))
r('A10_pct_last', (U, """            if let Some(i_) = idx.last() {
                p.push(v[*i_]);
                break;
            }""", """            p.push(v[idx[idx.len() - 1]]);
            break;"""))
r('A10_map_bin', (U, """    let mut low = 0;
    let mut high = x.len();
    while low != high {
        let mid = (low + high) / 2;
        // This will always be false for NaNs.
        // This it will force us to the bottom,
        // and thus Zero.
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()""", """    u16::try_from(x.partition_point(|c| c <= v)).ok()"""))
r('A10_naive', (U, "    values.iter().copied().sum()\n}\n\n/// Naive weighted", "    values.iter().fold(T::ZERO, |a, b| a + *b)\n}\n\n/// Naive weighted"))
r('A10_cw_clamp', (U, """    if weight > upper_bound {
        upper_bound
    } else if weight < lower_bound {
        lower_bound
    } else {
        weight
    }
}

/// Test""", """    if weight < lower_bound {
        return lower_bound;
    }
    if upper_bound < weight {
        return upper_bound;
    }
    weight
}

/// Test"""))
r('A10_l1', (U, """    if l1 == &0. {
        *w
    } else if w > l1 {""", """    if *l1 == 0.0f32 {
        return *w;
    }
    if w > l1 {"""))
r('A10_weight_then', (U, """    if (max_delta_step != &0.) && (&w.abs() > max_delta_step) {
        return max_delta_step.copysign(w);
    }
    w""", """    match *max_delta_step {
        m if m != 0. && w.abs() > m => m.copysign(w),
        _ => w,
    }"""))
r('A10_cull_matches', (U, """    match constraint {
        None | Some(Constraint::Unconstrained) => gain,
        Some(Constraint::Negative) => {
            if left_weight <= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
        Some(Constraint::Positive) => {
            if left_weight >= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
    }""", """    let violated = match constraint {
        Some(Constraint::Negative) => left_weight <= right_weight,
        Some(Constraint::Positive) => left_weight >= right_weight,
        _ => false,
    };
    if violated {
        return f32::NEG_INFINITY;
    }
    gain"""))
r('A10_valid_vec', (U, """    let remainder = v
        .iter()
        .filter(|i| i.is_nan() || i < &&0.)
        .copied()
        .collect::<Vec<f64>>();
    validate_positive_vec(&remainder, name.clone())?;
    validate_not_nan_vec(&remainder, name)?;
    Ok(())""", """    validate_positive_vec(v, name.clone())?;
    validate_not_nan_vec(v, name)"""))
r('A10_nan_all', (U, """    if v.iter().any(|i| i.is_nan()) {
        Err(ForustError::MissingValuesFound(name))
    } else {
        Ok(())
    }""", """    match v.iter().position(|i| i.is_nan()) {
        Some(_) => Err(ForustError::MissingValuesFound(name)),
        None => Ok(()),
    }"""))
r('A10_nan_try', (U, """    if v.iter().any(|i| i.is_nan()) {
        Err(ForustError::MissingValuesFound(name))
    } else {
        Ok(())
    }""", """    for i in v {
        if i.is_nan() {
            return Err(ForustError::MissingValuesFound(name));
        }
    }
    Ok(())"""))
r('A10_better', (M, """    match (value.is_nan(), comparison.is_nan()) {
        // Both nan, comparison is not better,
        // Or comparison is nan, also not better
        (true, true) | (false, true) => false,
        // comparison is not Nan, it's better
        (true, false) => true,
        // Perform numerical comparison.
        (false, false) => {
            // If we are maximizing is the comparison
            // greater, than the current value
            if maximize {
                value < comparison
            // If we are minimizing is the comparison
            // less than the current value.
            } else {
                value > comparison
            }
        }
    }""", """    if comparison.is_nan() {
        return false;
    }
    let (worse, better) = if maximize { (value, comparison) } else { (comparison, value) };
    value.is_nan() || worse < better"""))
r('A10_logloss_loop', (M, """    let mut w_sum = 0.;
    let res = y
        .iter()
        .zip(yhat)
        .zip(sample_weight)
        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
        })
        .sum::<f64>();
    res / w_sum""", """    let w_sum = sample_weight.iter().take(y.len().min(yhat.len())).sum::<f64>();
    let mut res = 0.;
    for k in 0..y.len() {
        let p = f64::ONE / (f64::ONE + (-yhat[k]).exp());
        let ll = y[k] * p.ln() + (f64::ONE - y[k]) * ((f64::ONE - p).ln());
        res -= ll * sample_weight[k];
    }
    res / w_sum"""))
r('A10_rand_partition', (SA, """        let mut chosen = Vec::new();
        let mut excluded = Vec::new();
        for i in index {
            if rng.gen_range(0.0..1.0) < subsample {
                chosen.push(*i);
            } else {
                excluded.push(*i)
            }
        }
        (chosen, excluded)""", """        index
            .iter()
            .copied()
            .partition(|_| rng.gen_range(0.0..1.0) < subsample)"""))
r('A10_goss_rev', (SA, "        sorted.sort_unstable_by(|&a, &b| grad[b].abs().total_cmp(&grad[a].abs()));", "        sorted.sort_unstable_by(|&a, &b| grad[a].abs().total_cmp(&grad[b].abs()).reverse());"))
r('A10_goss_split', (SA, """        let mut used_set = sorted[0..top_n].to_vec();
""", """        let mut used_set: Vec<usize> = sorted.iter().take(top_n).copied().collect();
"""), (SA, "for i in &sorted[top_n..sorted.len()] {", "for i in sorted.iter().skip(top_n) {"))
r('A10_grower', (GR, """        self.pop().expect("Grower should not be empty")""", """        match self.pop() {
            Some(n) => n,
            None => panic!("Grower should not be empty"),
        }"""))
r('A10_fit_foreach', (T, """                for i in index.iter() {
                    let i_ = *i;
                    gs += grad[i_] as f64;
                    hs += hess[i_] as f64;
                }
                (gs as f32, hs as f32, true)""", """                index.iter().for_each(|&i_| {
                    gs += f64::from(grad[i_]);
                    hs += f64::from(hess[i_]);
                });
                (gs as f32, hs as f32, true)"""))
r('A10_fit_leaves', (T, """            n_leaves -= 1;

            let new_nodes""", """            let new_nodes"""), (T, """            if n_new_nodes == 0 {
                n_leaves += 1;
            } else {
                self.nodes[n_idx].make_parent_node(node);
                n_leaves += n_new_nodes;""", """            if n_new_nodes > 0 {
                self.nodes[n_idx].make_parent_node(node);
                n_leaves += n_new_nodes - 1;"""))
r('A10_fit_whilelet', (T, """        while !growable.is_empty() {
            // If this will push us over the max leaves parameter, break.
            if (n_leaves + splitter.new_leaves_added()) > max_leaves {
                break;
            }""", """        while !growable.is_empty() && n_leaves + splitter.new_leaves_added() <= max_leaves {"""))
r('A10_fit_depth', (T, """            let depth = node.depth + 1;
""", ""), (T, """            if depth > max_depth {
                continue;
            }""", """            if node.depth >= max_depth {
                continue;
            }"""))
r('A10_leaf_recur', (T, """        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                return node;
            } else {
                node_idx = node.get_child_idx(data.get(row, node.split_feature), missing);
            }
        }""", """        let mut node = &self.nodes[0];
        while !node.is_leaf {
            node = &self.nodes[node.get_child_idx(data.get(row, node.split_feature), missing)];
        }
        node"""))
r('A10_lastmut', (T, "        contribs[contribs.len() - 1] += weights[0];", "        if let Some(bias) = contribs.last_mut() {\n            *bias += weights[0];\n        }"))
r('A10_bins_chunks', (B, """    data.data
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let col = i / data.rows;
            // This will always be smaller than u16::MAX so we
            // are good to just unwrap here.
            map_bin(cuts.get_col(col), v, missing).unwrap()
        })
        .collect()""", """    let mut out = Vec::with_capacity(data.data.len());
    for (i, v) in data.data.iter().enumerate() {
        let bin = map_bin(cuts.get_col(i / data.rows), v, missing);
        out.push(bin.expect("bins fit in u16"));
    }
    out"""))
r('A10_bins_pcts', (B, """    let mut pcts = Vec::new();
    let nbins_ = f64::from_u16(nbins);
    for i in 0..nbins {
        let v = f64::from_u16(i) / nbins_;
        pcts.push(v);
    }""", """    let nbins_ = f64::from_u16(nbins);
    let pcts: Vec<f64> = (0..nbins).map(|i| f64::from_u16(i) / nbins_).collect();"""))
r('A10_bins_end', (B, """        let e = match cuts.ends.last() {
            Some(v) => v + l,
            None => l,
        };
        cuts.ends.push(e);""", """        let e = cuts.ends.last().copied().unwrap_or(0) + l;
        cuts.ends.push(e);"""))
r('A10_bins_end2', (B, """        let e = match cuts.ends.last() {
            Some(v) => v + l,
            None => l,
        };
        cuts.ends.push(e);""", """        cuts.ends.push(cuts.data.len());"""))
