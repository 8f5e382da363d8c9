"""Behaviour-preserving edits of the Rust sources: the comparison must stay quiet on each of them."""
U='src/utils.rs'; T='src/tree.rs'; S='src/splitter.rs'; N='src/node.rs'; H='src/histogram.rs'; G='src/gradientbooster.rs'; M='src/metric.rs'; O='src/objective.rs'; SA='src/sampler.rs'; B='src/binning.rs'; D='src/data.rs'; P='src/partial_dependence.rs'; SH='src/shapley.rs'
R = {}
def r(name, *edits): R[name] = edits

r('u_clamp', (U, """    if weight > upper_bound {
        upper_bound
    } else if weight < lower_bound {
        lower_bound
    } else {
        weight
    }
}""", """    if weight < lower_bound {
        return lower_bound;
    }
    if weight > upper_bound {
        return upper_bound;
    }
    weight
}"""))
r('u_between', (U, """    if i > j {
        (i >= v) && (v >= j)
    } else {
        (i <= v) && (v <= j)
    }""", """    let (lo, hi) = if i > j { (j, i) } else { (i, j) };
    lo <= v && v <= hi"""))
r('u_odds', (U, "    1. / (1. + (-v).exp())", "    let e = (-v).exp();\n    (1. + e).recip()"))
r('u_gain', (U, "    (gradient_sum * gradient_sum) / (hessian_sum + l2)", "    gradient_sum.powi(2) / (*l2 + hessian_sum)"))
r('u_ggw', (U, "    -(2.0 * gradient_sum * weight + (hessian_sum + l2) * (weight * weight))", "    let quadratic = (hessian_sum + l2) * weight * weight;\n    let linear = 2.0 * gradient_sum * weight;\n    -linear - quadratic"))
r('u_cull', (U, """    match constraint {
        None | Some(Constraint::Unconstrained) => gain,
        Some(Constraint::Negative) => {
            if left_weight <= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
        Some(Constraint::Positive) => {
            if left_weight >= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
    }""", """    let violated = match constraint {
        Some(Constraint::Positive) => left_weight >= right_weight,
        Some(Constraint::Negative) => left_weight <= right_weight,
        _ => false,
    };
    if violated {
        f32::NEG_INFINITY
    } else {
        gain
    }"""))
r('u_l1', (U, """    if l1 == &0. {
        *w
    } else if w > l1 {
        w - l1
    } else if w < &-l1 {
        w + l1
    } else {
        0.0
    }""", """    let (w, l1) = (*w, *l1);
    if l1 == 0. {
        return w;
    }
    if w > l1 {
        return w - l1;
    }
    if w < -l1 {
        return w + l1;
    }
    0.0"""))
r('u_weight', (U, """    let w = -(l1_regularization(&gradient_sum, l1) / (hessian_sum + l2));
    if (max_delta_step != &0.) && (&w.abs() > max_delta_step) {
        return max_delta_step.copysign(w);
    }
    w""", """    let numerator = l1_regularization(&gradient_sum, l1);
    let w = -numerator / (hessian_sum + l2);
    let limited = *max_delta_step != 0. && w.abs() > *max_delta_step;
    if limited {
        max_delta_step.copysign(w)
    } else {
        w
    }"""))
r('u_naive', (U, "    values.iter().copied().sum()\n}", "    let mut total = T::ZERO;\n    for v in values {\n        total += *v;\n    }\n    total\n}"))
r('u_validate', (U, """    if v.iter().any(|i| i.is_nan()) {
        Err(ForustError::MissingValuesFound(name))
    } else {
        Ok(())
    }""", """    for i in v {
        if i.is_nan() {
            return Err(ForustError::MissingValuesFound(name));
        }
    }
    Ok(())"""))
r('u_validate_all', (U, "    if v.iter().any(|i| i.is_nan()) {\n        Err(ForustError::MissingValuesFound(name))\n    } else {\n        Ok(())\n    }", "    if v.iter().all(|i| !i.is_nan()) {\n        Ok(())\n    } else {\n        Err(ForustError::MissingValuesFound(name))\n    }"))
r('u_fastsum_loop', (U, """    let remainder: f64 = remainder
        .iter()
        .fold(f64::ZERO, |acc, b| acc + f64::from(*b));
""", """    let remainder: f64 = remainder.iter().map(|b| *b as f64).sum();
"""))
r('n_child', (N, """        if is_missing(v, missing) {
            self.missing_node
        } else if v < &self.split_value {
            self.left_child
        } else {
            self.right_child
        }""", """        if is_missing(v, missing) {
            return self.missing_node;
        }
        match *v < self.split_value {
            true => self.left_child,
            false => self.right_child,
        }"""))
r('n_has', (N, "(self.missing_node != self.right_child) && (self.missing_node != self.left_child)", "!(self.missing_node == self.left_child || self.missing_node == self.right_child)"))
r('n_gain', (N, """        let missing_split_gain = match &missing_node_info {
            MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) => ni.gain,
            _ => 0.,
        };
        left_node_info.gain + right_node_info.gain + missing_split_gain - self.gain_value - gamma""", """        let mut gain = left_node_info.gain + right_node_info.gain;
        if let MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) = missing_node_info {
            gain += ni.gain;
        }
        gain - self.gain_value - gamma"""))
r('n_parent_order', (N, """        self.is_leaf = false;
        self.missing_node = split_node.missing_node;
        self.split_value = split_node.split_value;
        self.split_feature = split_node.split_feature;
        self.split_gain = split_node.split_gain;
        self.left_child = split_node.left_child;
        self.right_child = split_node.right_child;""", """        let SplittableNode {
            split_feature,
            split_value,
            split_gain,
            left_child,
            right_child,
            missing_node,
            ..
        } = split_node;
        self.left_child = left_child;
        self.right_child = right_child;
        self.missing_node = missing_node;
        self.split_feature = split_feature;
        self.split_gain = split_gain;
        self.split_value = split_value;
        self.is_leaf = false;"""))
r('t_leaf_while', (T, """        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                return node;
            } else {
                node_idx = node.get_child_idx(data.get(row, node.split_feature), missing);
            }
        }""", """        let mut node = &self.nodes[0];
        while !node.is_leaf {
            let value = data.get(row, node.split_feature);
            node = &self.nodes[node.get_child_idx(value, missing)];
        }
        node"""))
r('t_row_while', (T, """        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                return node.weight_value as f64;
            } else {
                node_idx = node.get_child_idx(&row[node.split_feature], missing);
            }
        }""", """        let mut node_idx = 0;
        while !self.nodes[node_idx].is_leaf {
            let node = &self.nodes[node_idx];
            node_idx = node.get_child_idx(&row[node.split_feature], missing);
        }
        self.nodes[node_idx].weight_value as f64"""))
r('t_contrib_weight', (T, """        contribs[contribs.len() - 1] += self.nodes[0].weight_value as f64;
        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                break;
            }
            // Get change of weight given child's weight.
            let child_idx = node.get_child_idx(&row[node.split_feature], missing);
            let node_weight = self.nodes[node_idx].weight_value as f64;
            let child_weight = self.nodes[child_idx].weight_value as f64;
            let delta = child_weight - node_weight;
            contribs[node.split_feature] += delta;
            node_idx = child_idx
        }""", """        let bias = contribs.len() - 1;
        let mut node = &self.nodes[0];
        contribs[bias] += f64::from(node.weight_value);
        while !node.is_leaf {
            let child = &self.nodes[node.get_child_idx(&row[node.split_feature], missing)];
            contribs[node.split_feature] +=
                f64::from(child.weight_value) - f64::from(node.weight_value);
            node = child;
        }"""))
r('t_mid_helper', (T, """            let other_child = if child_idx == node.left_child {
                &self.nodes[node.right_child]
            } else {
                &self.nodes[node.left_child]
            };
            let mid = (child""", """            let other_child = self.sibling(node, child_idx);
            let mid = (child"""), (T, "    // Branch difference predictions.\n", """    fn sibling(&self, node: &Node, child_idx: usize) -> &Node {
        if child_idx == node.left_child {
            &self.nodes[node.right_child]
        } else {
            &self.nodes[node.left_child]
        }
    }

    // Branch difference predictions.
"""))
r('t_mode', (T, """            let delta = if left_node.hessian_sum == right_node.hessian_sum {
                0.
            } else if left_node.hessian_sum > right_node.hessian_sum {
                child_weight - left_node.weight_value
            } else {
                child_weight - right_node.weight_value
            };""", """            let delta = if left_node.hessian_sum > right_node.hessian_sum {
                child_weight - left_node.weight_value
            } else if left_node.hessian_sum == right_node.hessian_sum {
                0.
            } else {
                child_weight - right_node.weight_value
            };"""))
r('t_missing_continue', (T, """            // If we are going down the missing branch, do nothing and leave
            // it at zero.
            if node.has_missing_branch() && child_idx == node.missing_node {
                node_idx = child_idx;
                continue;
            }
            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            let child_weight = self.nodes[child_idx].weight_value;

            let delta = if left_node.hessian_sum == right_node.hessian_sum {
                0.
            } else if left_node.hessian_sum > right_node.hessian_sum {
                child_weight - left_node.weight_value
            } else {
                child_weight - right_node.weight_value
            };
            contribs[node.split_feature] += delta as f64;
            node_idx = child_idx;""", """            let went_missing = node.has_missing_branch() && child_idx == node.missing_node;
            if !went_missing {
                let left_node = &self.nodes[node.left_child];
                let right_node = &self.nodes[node.right_child];
                let child_weight = self.nodes[child_idx].weight_value;

                let delta = if left_node.hessian_sum == right_node.hessian_sum {
                    0.
                } else if left_node.hessian_sum > right_node.hessian_sum {
                    child_weight - left_node.weight_value
                } else {
                    child_weight - right_node.weight_value
                };
                contribs[node.split_feature] += delta as f64;
            }
            node_idx = child_idx;"""))
r('t_predict_inline', (T, """        if parallel {
            self.predict_parallel(data, missing)
        } else {
            self.predict_single_threaded(data, missing)
        }""", """        let leaf_value = |i: &usize| f64::from(self.predict_leaf(data, *i, missing).weight_value);
        if parallel {
            data.index.par_iter().map(leaf_value).collect()
        } else {
            data.index.iter().map(leaf_value).collect()
        }"""))
r('t_distribute', (T, """            w = left_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.left_child, weights);
            w += right_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.right_child, weights);
            // If this a tree with a missing branch.
            if node.has_missing_branch() {
                let missing_node = &self.nodes[node.missing_node];
                w += missing_node.hessian_sum as f64
                    * self.distribute_node_leaf_weights(node.missing_node, weights);
            }
            w /= node.hessian_sum as f64;""", """            let left_w = self.distribute_node_leaf_weights(node.left_child, weights);
            let right_w = self.distribute_node_leaf_weights(node.right_child, weights);
            let mut total = left_node.hessian_sum as f64 * left_w;
            total += right_node.hessian_sum as f64 * right_w;
            if node.has_missing_branch() {
                let missing_w = self.distribute_node_leaf_weights(node.missing_node, weights);
                total += self.nodes[node.missing_node].hessian_sum as f64 * missing_w;
            }
            w = total / node.hessian_sum as f64;"""))
r('t_stats', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        let value = calc_stat(node);
        let entry = stats.entry(node.split_feature).or_insert((0.0, 0));
        entry.0 += value;
        entry.1 += 1;"""))
r('t_fit_helper', (T, """                for n in new_nodes {
                    self.nodes.push(n.as_node(splitter.get_learning_rate()));
                    if !n.is_missing_leaf {
                        growable.add_node(n)
                    }
                }""", """                let learning_rate = splitter.get_learning_rate();
                for n in new_nodes.into_iter() {
                    self.nodes.push(n.as_node(learning_rate));
                    if n.is_missing_leaf {
                        continue;
                    }
                    growable.add_node(n);
                }"""))
r('t_fit_leaves', (T, """            n_leaves -= 1;

            let new_nodes""", """            let new_nodes"""), (T, """            let n_new_nodes = new_nodes.len();
            if n_new_nodes == 0 {
                n_leaves += 1;
            } else {
                self.nodes[n_idx].make_parent_node(node);
                n_leaves += n_new_nodes;
                n_nodes""", """            let n_new_nodes = new_nodes.len();
            if n_new_nodes > 0 {
                self.nodes[n_idx].make_parent_node(node);
                n_leaves += n_new_nodes - 1;
                n_nodes"""))
r('t_fit_sums', (T, """                for i in index.iter() {
                    let i_ = *i;
                    gs += grad[i_] as f64;
                    hs += hess[i_] as f64;
                }
                (gs as f32, hs as f32, true)""", """                for &i in &index {
                    gs += f64::from(grad[i]);
                    hs += f64::from(hess[i]);
                }
                (gs as f32, hs as f32, true)"""))
r('t_fit_sums_iter', (T, """                let mut gs: f64 = 0.;
                let mut hs: f64 = 0.;
                for i in index.iter() {
                    let i_ = *i;
                    gs += grad[i_] as f64;
                    hs += hess[i_] as f64;
                }
                (gs as f32, hs as f32, true)""", """                let gs: f64 = index.iter().map(|i| grad[*i] as f64).sum();
                let hs: f64 = index.iter().map(|i| hess[*i] as f64).sum();
                (gs as f32, hs as f32, true)"""))
r('s_best_split', (S, """            let split_info = self.best_feature_split(node, *feature, idx);
            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }""", """            if let Some(info) = self.best_feature_split(node, *feature, idx) {
                if info.split_gain > best_gain {
                    best_gain = info.split_gain;
                    best_split_info = Some(info);
                }
            }"""))
r('s_bounds_helper', (S, """            let (left_bounds, right_bounds) = match constraint {
                None | Some(Constraint::Unconstrained) => (
                    (node.lower_bound, node.upper_bound),
                    (node.lower_bound, node.upper_bound),
                ),
                Some(Constraint::Negative) => ((mid, node.upper_bound), (node.lower_bound, mid)),
                Some(Constraint::Positive) => ((node.lower_bound, mid), (mid, node.upper_bound)),
            };
            left_node_info.bounds = left_bounds;
            right_node_info.bounds = right_bounds;""", """            let (lower, upper) = (node.lower_bound, node.upper_bound);
            (left_node_info.bounds, right_node_info.bounds) = child_bounds(constraint, lower, mid, upper);"""),
  (S, "/// Missing branch splitter\n", """fn child_bounds(
    constraint: Option<&Constraint>,
    lower: f32,
    mid: f32,
    upper: f32,
) -> ((f32, f32), (f32, f32)) {
    match constraint {
        Some(Constraint::Positive) => ((lower, mid), (mid, upper)),
        Some(Constraint::Negative) => ((mid, upper), (lower, mid)),
        _ => ((lower, upper), (lower, upper)),
    }
}

/// Missing branch splitter
"""))
r('s_maxgain', (S, "            if max_gain.is_none() || split_gain > max_gain.unwrap() {", "            let improves = match max_gain {\n                None => true,\n                Some(g) => split_gain > g,\n            };\n            if improves {"))
r('s_maxgain2', (S, "            if max_gain.is_none() || split_gain > max_gain.unwrap() {", "            if max_gain.map_or(true, |g| split_gain > g) {"))
r('s_evalmatch', (S, """            let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(""", """            let candidate = self.evaluate_split("""), (S, """                node.weight_value,
                constraint,
            ) {
                None => {
                    continue;
                }
                Some(v) => v,
            };
""", """                node.weight_value,
                constraint,
            );
            let Some((mut left_node_info, mut right_node_info, missing_info)) = candidate else {
                continue;
            };
"""))
r('s_split_node', (S, """        match self.best_split(node, col_index) {
            Some(split_info) => self.handle_split_info(
                split_info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
            ),
            None => Vec::new(),
        }""", """        let Some(split_info) = self.best_split(node, col_index) else {
            return vec![];
        };
        self.handle_split_info(
            split_info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
        )"""))
r('s_update_avg', (S, """        let update = (right_avg_weight * right_hessian
            + left_avg_weight * left_hessian
            + missing_avg_weight * missing_hessian)
            / (left_hessian + right_hessian + missing_hessian);
""", """        let total_hessian = left_hessian + right_hessian + missing_hessian;
        let weighted = left_avg_weight * left_hessian
            + right_avg_weight * right_hessian
            + missing_avg_weight * missing_hessian;
        let update = weighted / total_hessian;
"""), (S, """        if let Some(n) = tree.nodes.get_mut(current_node) {
            n.weight_value = update as f32;
        }""", "        tree.nodes[current_node].weight_value = update as f32;"))
r('s_terminate', (S, """            MissingInfo::Branch(i) => {
                if self
                    .terminate_missing_features
                    .contains(&split_info.split_feature)
                {
                    (true, i)
                } else {
                    (false, i)
                }
            }""", """            MissingInfo::Branch(i) => (
                self.terminate_missing_features
                    .contains(&split_info.split_feature),
                i,
            ),"""))
r('s_hist_closure', (S, """            // Max is missing, calculate the other two
            // levels histograms.
            left_histograms = HistogramMatrix::new(
                data,
                cuts,
                grad,
                hess,
                &index[missing_split_idx..split_idx],
                col_index,
                parallel,
                true,
            );
            right_histograms = HistogramMatrix::new(
                data,
                cuts,
                grad,
                hess,
                &index[split_idx..node.stop_idx],
                col_index,
                parallel,
                true,
            );""", """            let build = |rows: &[usize]| {
                HistogramMatrix::new(data, cuts, grad, hess, rows, col_index, parallel, true)
            };
            right_histograms = build(&index[split_idx..node.stop_idx]);
            left_histograms = build(&index[missing_split_idx..split_idx]);"""))
r('s_nmissing', (S, """        let n_right = total_recs - split_idx;
        let n_left = total_recs - n_right - missing_split_idx;
        let n_missing = total_recs - (n_right + n_left);
        let max_""", """        let n_missing = missing_split_idx;
        let n_left = split_idx - missing_split_idx;
        let n_right = total_recs - split_idx;
        let max_"""))
r('h_sorted', (H, """            let mut n_grad = Vec::new();
            let mut n_hess = Vec::new();
            for i in index {
                let i_ = *i;
                n_grad.push(grad[i_]);
                n_hess.push(hess[i_]);
            }
            (n_grad, n_hess)""", """            (
                index.iter().map(|i| grad[*i]).collect::<Vec<f32>>(),
                index.iter().map(|i| hess[*i]).collect::<Vec<f32>>(),
            )"""))
r('h_feature_loop', (H, """    index
        .iter()
        .zip(sorted_grad)
        .zip(sorted_hess)
        .for_each(|((i, g), h)| {
            if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                v.gradient_sum += f64::from(*g);
                v.hessian_sum += f64::from(*h);
            }
        });""", """    for ((i, g), h) in index.iter().zip(sorted_grad).zip(sorted_hess) {
        let bin = feature[*i] as usize;
        if let Some(v) = histogram.get_mut(bin) {
            v.gradient_sum += *g as f64;
            v.hessian_sum += *h as f64;
        }
    }"""))
r('h_closure', (H, """        let histograms = if parallel {
            col_index
                .par_iter()
                .flat_map(|col| {
                    create_feature_histogram(
                        data.get_col(*col),
                        cuts.get_col(*col),
                        &sorted_grad,
                        &sorted_hess,
                        index,
                    )
                })
                .collect::<Vec<Bin<f32>>>()
        } else {
            col_index
                .iter()
                .flat_map(|col| {
                    create_feature_histogram(
                        data.get_col(*col),
                        cuts.get_col(*col),
                        &sorted_grad,
                        &sorted_hess,
                        index,
                    )
                })
                .collect::<Vec<Bin<f32>>>()
        };""", """        let column_histogram = |col: &usize| {
            create_feature_histogram(
                data.get_col(*col),
                cuts.get_col(*col),
                &sorted_grad,
                &sorted_hess,
                index,
            )
        };
        let histograms: Vec<Bin<f32>> = if parallel {
            col_index.par_iter().flat_map(column_histogram).collect()
        } else {
            let mut all = Vec::new();
            for col in col_index {
                all.extend(column_histogram(col));
            }
            all
        };"""))
r('h_ends', (H, """        let ends: Vec<usize> = if col_index.len() == data.cols {
            cuts.ends.to_owned()
        } else {
            col_index
                .iter()
                .scan(0_usize, |state, i| {
                    *state += cuts.get_col(*i).len();
                    Some(*state)
                })
                .collect()
        };""", """        let ends: Vec<usize> = if col_index.len() == data.cols {
            cuts.ends.clone()
        } else {
            let mut ends = Vec::with_capacity(col_index.len());
            let mut end = 0;
            for col in col_index {
                end += cuts.get_col(*col).len();
                ends.push(end);
            }
            ends
        };"""))
r('h_parent_loop', (H, """        let histograms = root
            .data
            .iter()
            .zip(child.data.iter())
            .map(|(root_bin, child_bin)| Bin::from_parent_child(root_bin, child_bin))
            .collect();""", """        let mut histograms = Vec::with_capacity(root.data.len());
        for (i, root_bin) in root.data.iter().enumerate() {
            histograms.push(Bin::from_parent_child(root_bin, &child.data[i]));
        }"""))
r('m_logloss', (M, """    let mut w_sum = 0.;
    let res = y
        .iter()
        .zip(yhat)
        .zip(sample_weight)
        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
        })
        .sum::<f64>();
    res / w_sum""", """    let mut w_sum = 0.;
    let mut res = 0.;
    for ((y_, yhat_), w_) in y.iter().zip(yhat).zip(sample_weight) {
        let p = 1.0 / (1.0 + (-*yhat_).exp());
        res -= (*y_ * p.ln() + (1.0 - *y_) * (1.0 - p).ln()) * *w_;
        w_sum += *w_;
    }
    res / w_sum"""))
r('m_rmse_wsum', (M, """    let mut w_sum = 0.;
    let res = y
        .iter()
        .zip(yhat)
        .zip(sample_weight)
        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            (y_ - yhat_).powi(2) * *w_
        })
        .sum::<f64>();
    (res / w_sum).sqrt()""", """    let w_sum: f64 = sample_weight.iter().sum();
    let mut res = 0.;
    for i in 0..y.len() {
        let e = yhat[i] - y[i];
        res += sample_weight[i] * e * e;
    }
    (res / w_sum).sqrt()"""))
r('m_helper', (M, """            w_sum += *w_;
            (y_.ln_1p() - yhat_.ln_1p()).powi(2) * *w_""", """            w_sum += *w_;
            weighted_square(y_.ln_1p() - yhat_.ln_1p(), *w_)"""), (M, "fn trapezoid_area", "fn weighted_square(error: f64, weight: f64) -> f64 {\n    error * error * weight\n}\n\nfn trapezoid_area"))
r('m_better', (M, """    match (value.is_nan(), comparison.is_nan()) {
        // Both nan, comparison is not better,
        // Or comparison is nan, also not better
        (true, true) | (false, true) => false,
        // comparison is not Nan, it's better
        (true, false) => true,
        // Perform numerical comparison.
        (false, false) => {
            // If we are maximizing is the comparison
            // greater, than the current value
            if maximize {
                value < comparison
            // If we are minimizing is the comparison
            // less than the current value.
            } else {
                value > comparison
            }
        }
    }""", """    if comparison.is_nan() {
        return false;
    }
    if value.is_nan() {
        return true;
    }
    if maximize {
        comparison > value
    } else {
        comparison < value
    }"""))
r('m_auc', (M, """    if fp <= 0.0 || tp <= 0.0 {
        auc = 0.0;
        fp = 0.0;
        tp = 0.0;
    }

    auc / (tp * fp)""", """    if fp <= 0.0 || tp <= 0.0 {
        return f64::NAN;
    }
    auc / (fp * tp)"""))
r('o_init', (O, """        let mut ytot: f64 = 0.;
        let mut ntot: f64 = 0.;
        for i in 0..y.len() {
            ytot += sample_weight[i] * y[i];
            ntot += sample_weight[i];
        }

        ytot / ntot""", """        let ytot: f64 = y.iter().zip(sample_weight).map(|(y_, w_)| y_ * w_).sum();
        let ntot: f64 = sample_weight.iter().sum();
        ytot / ntot"""))
r('o_grad', (O, """            .map(|((y_, yhat_), w_)| {
                let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
                (
                    ((yhat_ - *y_) * *w_) as f32,
                    (yhat_ * (f64::ONE - yhat_) * *w_) as f32,
                )
            })
            .unzip()""", """            .map(|((y_, yhat_), w_)| {
                let p = crate::utils::odds(*yhat_);
                let grad = (p - *y_) * *w_;
                let hess = p * (1.0 - p) * *w_;
                (grad as f32, hess as f32)
            })
            .unzip()"""))
r('o_grad_loop', (O, """        y.iter()
            .zip(yhat)
            .zip(sample_weight)
            .map(|((y_, yhat_), w_)| (((yhat_ - *y_) * *w_) as f32, *w_ as f32))
            .unzip()""", """        let mut grad = Vec::with_capacity(y.len());
        let mut hess = Vec::with_capacity(y.len());
        for ((y_, yhat_), w_) in y.iter().zip(yhat).zip(sample_weight) {
            grad.push(((yhat_ - y_) * w_) as f32);
            hess.push(*w_ as f32);
        }
        (grad, hess)"""))
r('sa_random', (SA, """        let subsample = self.subsample;
        let mut chosen = Vec::new();
        let mut excluded = Vec::new();
        for i in index {
            if rng.gen_range(0.0..1.0) < subsample {
                chosen.push(*i);
            } else {
                excluded.push(*i)
            }
        }
        (chosen, excluded)""", """        index
            .iter()
            .copied()
            .partition(|_| rng.gen_range(0.0..1.0) < self.subsample)"""))
r('sa_goss', (SA, """        for i in &sorted[top_n..sorted.len()] {
            if rng.gen_range(0.0..1.0) < subsample {
                grad[*i] *= fact;
                hess[*i] *= fact;
                used_set.push(*i);
            }
        }""", """        for &i in sorted[top_n..].iter() {
            let draw = rng.gen_range(0.0..1.0);
            if draw >= subsample {
                continue;
            }
            used_set.push(i);
            grad[i] *= fact;
            hess[i] *= fact;
        }"""))
r('b_pcts', (B, """    let mut pcts = Vec::new();
    let nbins_ = f64::from_u16(nbins);
    for i in 0..nbins {
        let v = f64::from_u16(i) / nbins_;
        pcts.push(v);
    }
""", """    let nbins_ = f64::from_u16(nbins);
    let pcts: Vec<f64> = (0..nbins).map(|i| f64::from_u16(i) / nbins_).collect();
"""))
r('p_pd', (P, """        let child = if is_missing(&value, missing) {
            n.missing_node
        } else if value < n.split_value {
            n.left_child
        } else {
            n.right_child
        };
        tree_partial""", """        let child = n.get_child_idx(&value, missing);
        tree_partial"""))
r('g_predict', (G, """        self.get_prediction_trees().iter().for_each(|tree| {
            for (p_, val) in init_preds
                .iter_mut()
                .zip(tree.predict(data, parallel, &self.missing))
            {
                *p_ += val;
            }
        });
        init_preds""", """        for tree in self.get_prediction_trees() {
            let preds = tree.predict(data, parallel, &self.missing);
            init_preds.iter_mut().zip(preds).for_each(|(p_, val)| *p_ += val);
        }
        init_preds"""))
r('g_trees', (G, """        let n_iterations = self.prediction_iteration.unwrap_or(self.trees.len());
        &self.trees[..n_iterations]""", """        match self.prediction_iteration {
            Some(n) => &self.trees[..n],
            None => &self.trees,
        }"""))
r('g_leaf', (G, """        self.get_prediction_trees()
            .iter()
            .flat_map(|tree| tree.predict_leaf_indices(data, &self.missing))
            .collect()""", """        let mut indices = Vec::new();
        for tree in self.get_prediction_trees() {
            indices.extend(tree.predict_leaf_indices(data, &self.missing));
        }
        indices"""))
r('g_bias_helper', (G, """        let mut contribs = vec![0.; (data.cols + 1) * data.rows];

        // Add the bias term to every bias value...
        let bias_idx = data.cols + 1;
        contribs
            .iter_mut()
            .skip(bias_idx - 1)
            .step_by(bias_idx)
            .for_each(|v| *v += self.base_score);

        // Clean this up..
        // materializing a row, and then passing that to all of the
        // trees seems to be the fastest approach (5X faster), we should test
        // something like this for normal predictions.
        if parallel {
            data.index
                .par_iter()
                .zip(contribs.par_chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees()
                        .iter()
                        .zip(weights.iter())""", """        let mut contribs = self.init_contributions(data);

        if parallel {
            data.index
                .par_iter()
                .zip(contribs.par_chunks_mut(data.cols + 1))
                .for_each(|(row, c)| {
                    let r_ = data.get_row(*row);
                    self.get_prediction_trees()
                        .iter()
                        .zip(weights.iter())"""), (G, "    /// Get the a reference to the trees for predicting", """    fn init_contributions(&self, data: &Matrix<f64>) -> Vec<f64> {
        let width = data.cols + 1;
        let mut contribs = vec![0.; width * data.rows];
        contribs
            .iter_mut()
            .skip(data.cols)
            .step_by(width)
            .for_each(|v| *v += self.base_score);
        contribs
    }

    /// Get the a reference to the trees for predicting"""))
r('g_fit_order', (G, """        let mut rng = StdRng::seed_from_u64(self.seed);

        if self.initialize_base_score {
            self.base_score = calc_init_callables(&self.objective_type)(y, sample_weight);
        }
""", """        if self.initialize_base_score {
            let calc_init = calc_init_callables(&self.objective_type);
            self.base_score = calc_init(y, sample_weight);
        }

        let mut rng = StdRng::seed_from_u64(self.seed);
"""))
r('g_fit_colsample', (G, """            let colsample_index: Vec<usize> = if self.colsample_bytree == 1.0 {
                Vec::new()
            } else {
                let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
                let mut v: Vec<usize> = col_index
                    .iter()
                    .choose_multiple(&mut rng, amount)
                    .iter()
                    .map(|i| **i)
                    .collect();
                v.sort();
                v
            };

            let fit_col_index = if self.colsample_bytree == 1.0 {
                &col_index
            } else {
                &colsample_index
            };
""", """            let fit_col_index: Vec<usize> = if self.colsample_bytree == 1.0 {
                col_index.clone()
            } else {
                let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
                let mut v: Vec<usize> = col_index
                    .iter()
                    .choose_multiple(&mut rng, amount)
                    .into_iter()
                    .copied()
                    .collect();
                v.sort();
                v
            };
"""), (G, "                fit_col_index,\n", "                &fit_col_index,\n"))
r('g_fit_eval_helper', (G, """                    self.update_predictions_inplace(yhat, &tree, data);
                    let (metric_fn, maximize) = self.get_metric_fn();
                    let m = metric_fn(y, yhat, w);
                    // If early""", """                    let (metric_fn, maximize) = self.get_metric_fn();
                    self.update_predictions_inplace(yhat, &tree, data);
                    let m = metric_fn(y, yhat, w);
                    // If early"""))
r('g_fit_best', (G, """                            best_metric = match best_metric {
                                None => {
                                    self.update_best_iteration(i);
                                    Some(m)
                                }
                                // Otherwise the best could be farther back.
                                Some(v) => {
                                    // We have reached a new best value...
                                    if is_comparison_better(v, m, maximize) {
                                        self.update_best_iteration(i);
                                        Some(m)
                                    } else {
                                        // Previous value was better.
                                        if let Some(best_iteration) = self.best_iteration {
                                            if i - best_iteration >= early_stopping_rounds {
                                                // If any logging is requested, print this message.
                                                if self.log_iterations > 0 {
                                                    info!("Stopping early at iteration {} with metric value {}", i, m)
                                                }
                                                stop_early = true;
                                            }
                                        }
                                        Some(v)
                                    }
                                }
                            };""", """                            let improved = match best_metric {
                                None => true,
                                Some(v) => is_comparison_better(v, m, maximize),
                            };
                            if improved {
                                self.update_best_iteration(i);
                                best_metric = Some(m);
                            } else if let Some(best_iteration) = self.best_iteration {
                                if i - best_iteration >= early_stopping_rounds {
                                    if self.log_iterations > 0 {
                                        info!("Stopping early at iteration {} with metric value {}", i, m)
                                    }
                                    stop_early = true;
                                }
                            }"""))
r('g_verbose', (G, """            let verbose = if self.log_iterations == 0 {
                false
            } else {
                i % self.log_iterations == 0
            };""", "            let verbose = self.log_iterations != 0 && i % self.log_iterations == 0;"))
r('g_importance', (G, "", "")) if False else None
r('g_reset', (G, """        self.trees = Vec::new();
        self.evaluation_history = None;
        self.best_iteration = None;
        self.prediction_iteration = None;""", """        self.prediction_iteration = None;
        self.best_iteration = None;
        self.evaluation_history = None;
        self.trees.clear();"""))
r('g_reset_inline', (G, """        if !self.trees.is_empty() {
            self.reset()
        }""", """        if !self.trees.is_empty() {
            self.trees = Vec::new();
            self.evaluation_history = None;
            self.best_iteration = None;
            self.prediction_iteration = None;
        }"""))
r('s_two_returns', (S, """        if (left_gradient == 0.0) && (left_hessian == 0.0)
            || (right_gradient == 0.0) && (right_hessian == 0.0)
        {
            return None;
        }

        let mut left_weight = constrained_weight(
            &self.l1,
            &self.l2,
            &self.max_delta_step,
            left_gradient,
            left_hessian,
            lower_bound,
            upper_bound,
            constraint,
        );
        let mut right_weight = constrained_weight(
            &self.l1,
            &self.l2,
            &self.max_delta_step,
            right_gradient,
            right_hessian,
            lower_bound,
            upper_bound,
            constraint,
        );

        if self.force""", """        let left_empty = left_gradient == 0.0 && left_hessian == 0.0;
        let right_empty = right_gradient == 0.0 && right_hessian == 0.0;
        if left_empty || right_empty {
            return None;
        }
        if left_hessian < self.min_leaf_weight || right_hessian < self.min_leaf_weight {
            return None;
        }

        let bounded = |g: f32, h: f32| {
            constrained_weight(
                &self.l1,
                &self.l2,
                &self.max_delta_step,
                g,
                h,
                lower_bound,
                upper_bound,
                constraint,
            )
        };
        let mut left_weight = bounded(left_gradient, left_hessian);
        let mut right_weight = bounded(right_gradient, right_hessian);

        if self.force"""))
r('t_stats2', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        let entry = stats.entry(node.split_feature).or_default();
        *entry = (entry.0 + calc_stat(node), entry.1 + 1);"""))
r('t_stats3', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        let stat = calc_stat(node);
        match stats.get_mut(&node.split_feature) {
            Some((v, c)) => {
                *v += stat;
                *c += 1;
            }
            None => {
                stats.insert(node.split_feature, (stat, 1));
            }
        }"""))
