from refactors import r
G, T, N, S, B, U, H, D, M, O, SH, PD, SA, GR = ('src/%s.rs' % x for x in ('gradientbooster', 'tree', 'node', 'splitter', 'binning', 'utils', 'histogram', 'data', 'metric', 'objective', 'shapley', 'partial_dependence', 'sampler', 'grower'))

# -- objective
r('O8_sums_helper', (O, """#[derive(Default)]
pub struct LogLoss {}
""", """fn weighted_totals(y: &[f64], sample_weight: &[f64]) -> (f64, f64) {
    let mut ytot: f64 = 0.;
    let mut ntot: f64 = 0.;
    for (i, y_) in y.iter().enumerate() {
        let w = sample_weight[i];
        ntot += w;
        ytot += w * y_;
    }
    (ytot, ntot)
}

#[derive(Default)]
pub struct LogLoss {}
"""), (O, """        let mut ytot: f64 = 0.;
        let mut ntot: f64 = 0.;
        for i in 0..y.len() {
            ytot += sample_weight[i] * y[i];
            ntot += sample_weight[i];
        }
        f64::ln(ytot / (ntot - ytot))""", """        let (ytot, ntot) = weighted_totals(y, sample_weight);
        let odds = ytot / (ntot - ytot);
        odds.ln()"""), (O, """        let mut ytot: f64 = 0.;
        let mut ntot: f64 = 0.;
        for i in 0..y.len() {
            ytot += sample_weight[i] * y[i];
            ntot += sample_weight[i];
        }

        ytot / ntot""", """        let (total, n) = weighted_totals(y, sample_weight);
        total / n"""))
r('O8_gh_loop', (O, """        y.iter()
            .zip(yhat)
            .zip(sample_weight)
            .map(|((y_, yhat_), w_)| (((yhat_ - *y_) * *w_) as f32, *w_ as f32))
            .unzip()""", """        let mut grad = Vec::with_capacity(y.len());
        let mut hess = Vec::with_capacity(y.len());
        for ((y_, yhat_), w_) in y.iter().zip(yhat.iter()).zip(sample_weight.iter()) {
            grad.push(((*yhat_ - *y_) * *w_) as f32);
            hess.push(*w_ as f32);
        }
        (grad, hess)"""))
r('O8_gh_helper', (O, """            .map(|((y_, yhat_), w_)| {
                let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
                (
                    ((yhat_ - *y_) * *w_) as f32,
                    (yhat_ * (f64::ONE - yhat_) * *w_) as f32,
                )
            })
            .unzip()
    }
""", """            .map(|((y_, yhat_), w_)| Self::row_grad_hess(*y_, *yhat_, *w_))
            .unzip()
    }
"""), (O, """#[derive(Default)]
pub struct LogLoss {}
""", """#[derive(Default)]
pub struct LogLoss {}

impl LogLoss {
    #[inline]
    fn row_grad_hess(y: f64, logodds: f64, w: f64) -> (f32, f32) {
        let p = 1.0 / (1.0 + (-logodds).exp());
        let g = (p - y) * w;
        let h = p * (1.0 - p) * w;
        (g as f32, h as f32)
    }
}
"""))
r('O8_loss_loop', (O, """        y.iter()
            .zip(yhat)
            .zip(sample_weight)
            .map(|((y_, yhat_), w_)| {
                let s = *y_ - *yhat_;
                (s * s * *w_) as f32
            })
            .collect()""", """        let mut losses = Vec::new();
        for ((actual, pred), w) in y.iter().zip(yhat).zip(sample_weight) {
            let diff = actual - pred;
            losses.push((diff * diff * w) as f32);
        }
        losses"""))
r('O8_callables_use', (O, """    match objective_type {
        ObjectiveType::LogLoss => LogLoss::calc_init,
        ObjectiveType::SquaredLoss => SquaredLoss::calc_init,
    }""", """    if let ObjectiveType::SquaredLoss = objective_type {
        return SquaredLoss::calc_init;
    }
    LogLoss::calc_init"""))
r('O8_callables_matches', (O, """    match objective_type {
        ObjectiveType::LogLoss => LogLoss::calc_grad_hess,
        ObjectiveType::SquaredLoss => SquaredLoss::calc_grad_hess,
    }""", """    let f: ObjFn = if matches!(objective_type, ObjectiveType::LogLoss) {
        LogLoss::calc_grad_hess
    } else {
        SquaredLoss::calc_grad_hess
    };
    f"""))
# -- sampler
r('SA8_random_partition', (SA, """        let subsample = self.subsample;
        let mut chosen = Vec::new();
        let mut excluded = Vec::new();
        for i in index {
            if rng.gen_range(0.0..1.0) < subsample {
                chosen.push(*i);
            } else {
                excluded.push(*i)
            }
        }
        (chosen, excluded)""", """        index
            .iter()
            .copied()
            .partition(|_| rng.gen_range(0.0..1.0) < self.subsample)"""))
r('SA8_random_target', (SA, """            if rng.gen_range(0.0..1.0) < subsample {
                chosen.push(*i);
            } else {
                excluded.push(*i)
            }""", """            let draw: f32 = rng.gen_range(0.0..1.0);
            let target = if draw < subsample { &mut chosen } else { &mut excluded };
            target.push(*i);"""))
r('SA8_goss_names', (SA, """        let fact = ((1. - self.a) / self.b) as f32;
        let top_n = (self.a * index.len() as f64) as usize;
        let rand_n = (self.b * index.len() as f64) as usize;
""", """        let n = index.len() as f64;
        let (top_n, rand_n) = ((self.a * n) as usize, (self.b * n) as usize);
        let fact = ((1. - self.a) / self.b) as f32;
"""), (SA, """        let subsample = rand_n as f64 / (index.len() as f64 - top_n as f64);""", """        let subsample = rand_n as f64 / (n - top_n as f64);"""))
r('SA8_goss_splitat', (SA, """        let mut used_set = sorted[0..top_n].to_vec();
""", """        let (top, rest) = sorted.split_at(top_n);
        let mut used_set = top.to_vec();
"""), (SA, """        for i in &sorted[top_n..sorted.len()] {
            if rng.gen_range(0.0..1.0) < subsample {
                grad[*i] *= fact;
                hess[*i] *= fact;
                used_set.push(*i);
            }
        }""", """        for &i in rest {
            let keep = rng.gen_range(0.0..1.0) < subsample;
            if !keep {
                continue;
            }
            used_set.push(i);
            hess[i] *= fact;
            grad[i] *= fact;
        }"""))
r('SA8_goss_key', (SA, """        sorted.sort_unstable_by(|&a, &b| grad[b].abs().total_cmp(&grad[a].abs()));""", """        let magnitude = |i: usize| grad[i].abs();
        sorted.sort_unstable_by(|&left, &right| magnitude(right).total_cmp(&magnitude(left)));"""))
r('SA8_goss_idx', (SA, """        for i in &sorted[top_n..sorted.len()] {
            if rng.gen_range(0.0..1.0) < subsample {
                grad[*i] *= fact;
                hess[*i] *= fact;
                used_set.push(*i);
            }
        }""", """        for pos in top_n..sorted.len() {
            let row = sorted[pos];
            if rng.gen_range(0.0..1.0) < subsample {
                used_set.push(row);
                grad[row] = grad[row] * fact;
                hess[row] = hess[row] * fact;
            }
        }"""))
# -- grower
r('GR8_match', (GR, """        self.pop().expect("Grower should not be empty")""", """        match self.pop() {
            Some(node) => node,
            None => panic!("Grower should not be empty"),
        }"""))
r('GR8_len', (GR, """    fn is_empty(&self) -> bool {
        self.is_empty()
    }
}

impl Grower for VecDeque""", """    fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

impl Grower for VecDeque"""), (GR, """        self.pop_back().expect("Grower should not be empty")
    }

    fn is_empty(&self) -> bool {
        self.is_empty()
    }""", """        self.pop_back().expect("Grower should not be empty")
    }

    fn is_empty(&self) -> bool {
        self.len() == 0
    }"""))
# -- splitter
r('S8_best_flat', (S, """            let split_info = self.best_feature_split(node, *feature, idx);
            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }
        }
        best_split_info""", """            let Some(info) = self.best_feature_split(node, *feature, idx) else {
                continue;
            };
            if info.split_gain <= best_gain || info.split_gain.is_nan() {
                continue;
            }
            best_gain = info.split_gain;
            best_split_info.replace(info);
        }
        best_split_info"""))
r('S8_best_filter', (S, """            let split_info = self.best_feature_split(node, *feature, idx);
            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }
        }
        best_split_info""", """            let better = self
                .best_feature_split(node, *feature, idx)
                .filter(|info| info.split_gain > best_gain);
            if let Some(info) = better {
                best_gain = info.split_gain;
                best_split_info = Some(info);
            }
        }
        best_split_info"""))
r('S8_best_filtermap', (S, """        for (idx, feature) in col_index.iter().enumerate() {
            let split_info = self.best_feature_split(node, *feature, idx);
            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }
        }
        best_split_info""", """        let candidates = col_index
            .iter()
            .enumerate()
            .filter_map(|(idx, feature)| self.best_feature_split(node, *feature, idx));
        for info in candidates {
            if info.split_gain > best_gain {
                best_gain = info.split_gain;
                best_split_info = Some(info);
            }
        }
        best_split_info"""))
r('S8_best_nogain', (S, """        let mut best_split_info = None;
        let mut best_gain = 0.0;
        for (idx, feature) in col_index.iter().enumerate() {
            let split_info = self.best_feature_split(node, *feature, idx);
            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }
        }
        best_split_info""", """        let mut best_split_info: Option<SplitInfo> = None;
        for (idx, feature) in col_index.iter().enumerate() {
            if let Some(info) = self.best_feature_split(node, *feature, idx) {
                let best_gain = best_split_info.as_ref().map_or(0.0, |b| b.split_gain);
                if info.split_gain > best_gain {
                    best_split_info = Some(info);
                }
            }
        }
        best_split_info"""))
r('S8_split_map', (S, """        match self.best_split(node, col_index) {
            Some(split_info) => self.handle_split_info(
                split_info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
            ),
            None => Vec::new(),
        }""", """        self.best_split(node, col_index)
            .map(|split_info| {
                self.handle_split_info(
                    split_info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
                )
            })
            .unwrap_or_default()"""))
r('S8_split_else', (S, """        match self.best_split(node, col_index) {
            Some(split_info) => self.handle_split_info(
                split_info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
            ),
            None => Vec::new(),
        }""", """        let Some(info) = self.best_split(node, col_index) else {
            return vec![];
        };
        self.handle_split_info(
            info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
        )"""))
r('S8_feat_index', (S, """        for (i, bin) in histogram[1..].iter().enumerate() {
            let left_gradient""", """        for split_bin in 1..histogram.len() {
            let bin = &histogram[split_bin];
            let left_gradient"""), (S, """                    split_bin: (i + 1) as u16,""", """                    split_bin: split_bin as u16,"""))
r('S8_feat_skip', (S, """        for (i, bin) in histogram[1..].iter().enumerate() {
            let left_gradient""", """        for (i, bin) in histogram.iter().enumerate().skip(1) {
            let left_gradient"""), (S, """                    split_bin: (i + 1) as u16,""", """                    split_bin: i as u16,"""))
r('S8_feat_cum_end', (S, """            cuml_grad += bin.gradient_sum;
            cuml_hess += bin.hessian_sum;

            let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(
                left_gradient,""", """            cuml_grad = left_gradient + bin.gradient_sum;
            cuml_hess = left_hessian + bin.hessian_sum;

            let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(
                left_gradient,"""))
r('S8_feat_bounds', (S, """            let mid = (left_node_info.weight + right_node_info.weight) / 2.0;
            let (left_bounds, right_bounds) = match constraint {
                None | Some(Constraint::Unconstrained) => (
                    (node.lower_bound, node.upper_bound),
                    (node.lower_bound, node.upper_bound),
                ),
                Some(Constraint::Negative) => ((mid, node.upper_bound), (node.lower_bound, mid)),
                Some(Constraint::Positive) => ((node.lower_bound, mid), (mid, node.upper_bound)),
            };
            left_node_info.bounds = left_bounds;
            right_node_info.bounds = right_bounds;
""", """            let mid = (left_node_info.weight + right_node_info.weight) / 2.0;
            left_node_info.bounds = (node.lower_bound, node.upper_bound);
            right_node_info.bounds = (node.lower_bound, node.upper_bound);
            match constraint {
                Some(Constraint::Negative) => {
                    left_node_info.bounds.0 = mid;
                    right_node_info.bounds.1 = mid;
                }
                Some(Constraint::Positive) => {
                    left_node_info.bounds.1 = mid;
                    right_node_info.bounds.0 = mid;
                }
                _ => {}
            }
"""))
r('S8_feat_nan', (S, """            // If split gain is NaN, one of the sides is empty, do not allow
            // this split.
            let split_gain = if split_gain.is_nan() { 0.0 } else { split_gain };
            if max_gain.is_none() || split_gain > max_gain.unwrap() {
                max_gain = Some(split_gain);""", """            // If split gain is NaN, one of the sides is empty, do not allow
            // this split.
            let split_gain = match split_gain {
                g if g.is_nan() => 0.0,
                g => g,
            };
            let improved = max_gain.map_or(true, |current| split_gain > current);
            if improved {
                max_gain = Some(split_gain);"""))
r('S8_feat_right', (S, """        for (i, bin) in histogram[1..].iter().enumerate() {
            let left_gradient = cuml_grad;
            let left_hessian = cuml_hess;
            let right_gradient = node.gradient_sum - cuml_grad - missing.gradient_sum;
            let right_hessian = node.hessian_sum - cuml_hess - missing.hessian_sum;
            cuml_grad += bin.gradient_sum;
            cuml_hess += bin.hessian_sum;
""", """        let (missing_grad, missing_hess) = (missing.gradient_sum, missing.hessian_sum);
        for (i, bin) in histogram[1..].iter().enumerate() {
            let (left_gradient, left_hessian) = (cuml_grad, cuml_hess);
            let right_gradient = node.gradient_sum - left_gradient - missing_grad;
            let right_hessian = node.hessian_sum - left_hessian - missing_hess;
            cuml_grad += bin.gradient_sum;
            cuml_hess += bin.hessian_sum;
"""), (S, """                missing.gradient_sum,
                missing.hessian_sum,
                node.lower_bound,""", """                missing_grad,
                missing_hess,
                node.lower_bound,"""))
r('S8_cull_inline', (S, """            // Check monotonicity holds
            let split_gain = cull_gain(
                split_gain,
                left_node_info.weight,
                right_node_info.weight,
                constraint,
            );

            if split_gain <= 0.0 {
                continue;
            }
""", """            // Check monotonicity holds
            let (lw, rw) = (left_node_info.weight, right_node_info.weight);
            let violates = match constraint {
                Some(Constraint::Negative) => lw <= rw,
                Some(Constraint::Positive) => lw >= rw,
                _ => false,
            };
            if violates || split_gain <= 0.0 {
                continue;
            }
"""))
# -- tree
r('T8_pcw_loop', (T, """        data.index
            .par_iter()
            .zip(contribs.par_chunks_mut(data.cols + 1))
            .for_each(|(row, contribs)| {
                self.predict_contributions_row_weight(&data.get_row(*row), contribs, missing)
            })""", """        let width = data.cols + 1;
        contribs
            .par_chunks_mut(width)
            .zip(data.index.par_iter())
            .for_each(|(chunk, row)| {
                let values = data.get_row(*row);
                self.predict_contributions_row_weight(&values, chunk, missing);
            });"""))
r('T8_pca_serial', (T, """        data.index
            .par_iter()
            .zip(contribs.par_chunks_mut(data.cols + 1))
            .for_each(|(row, contribs)| {
                self.predict_contributions_row_average(""", """        data.index
            .iter()
            .zip(contribs.chunks_mut(data.cols + 1))
            .for_each(|(row, contribs)| {
                self.predict_contributions_row_average("""))
r('T8_predict_par', (T, """        data.index
            .par_iter()
            .map(|i| self.predict_leaf(data, *i, missing).weight_value as f64)
            .collect()
    }

    pub fn predict(""", """        data.index
            .par_iter()
            .map(|&i| {
                let leaf = self.predict_leaf(data, i, missing);
                f64::from(leaf.weight_value)
            })
            .collect::<Vec<f64>>()
    }

    pub fn predict("""))
r('T8_predict_share', (T, """        data.index
            .iter()
            .map(|i| self.predict_leaf(data, *i, missing).weight_value as f64)
            .collect()""", """        let mut preds = Vec::with_capacity(data.index.len());
        for i in data.index.iter() {
            preds.push(self.leaf_value(data, *i, missing));
        }
        preds"""), (T, """        data.index
            .par_iter()
            .map(|i| self.predict_leaf(data, *i, missing).weight_value as f64)
            .collect()""", """        data.index
            .par_iter()
            .map(|i| self.leaf_value(data, *i, missing))
            .collect()"""), (T, """    fn predict_single_threaded(""", """    fn leaf_value(&self, data: &Matrix<f64>, row: usize, missing: &f64) -> f64 {
        self.predict_leaf(data, row, missing).weight_value as f64
    }

    fn predict_single_threaded("""))
r('T8_dist_children', (T, """            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            w = left_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.left_child, weights);
            w += right_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.right_child, weights);
            // If this a tree with a missing branch.
            if node.has_missing_branch() {
                let missing_node = &self.nodes[node.missing_node];
                w += missing_node.hessian_sum as f64
                    * self.distribute_node_leaf_weights(node.missing_node, weights);
            }
            w /= node.hessian_sum as f64;""", """            let mut weighted = |child: usize| {
                let cover = self.nodes[child].hessian_sum as f64;
                cover * self.distribute_node_leaf_weights(child, weights)
            };
            w = weighted(node.left_child);
            w += weighted(node.right_child);
            // If this a tree with a missing branch.
            if node.has_missing_branch() {
                w += weighted(node.missing_node);
            }
            w /= node.hessian_sum as f64;"""))
r('T8_imp_match', (T, """        self.get_node_stats(&|_: &Node| 1., stats);""", """        let count_split = |_: &Node| 1.0_f32;
        self.calc_feature_node_stats(&count_split, &self.nodes[0], stats);"""))
r('T8_fmt_once', (T, """            let node = &self.nodes[idx];
            if node.is_leaf {
                r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();
            } else {
                r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();
                print_buffer""", """            let node = &self.nodes[idx];
            r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();
            if !node.is_leaf {
                print_buffer"""))
r('T8_fmt_pushstr', (T, """                r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();
            } else {
                r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();""", """                let indent = "      ".repeat(node.depth);
                r.push_str(&format!("{}{}\\n", indent, node));
            } else {
                let indent = "      ".repeat(node.depth);
                r.push_str(&format!("{}{}\\n", indent, node));"""))
r('T8_sums_helper', (T, """            _ => {
                // Accumulate using f64 for numeric fidelity.
                let mut gs: f64 = 0.;
                let mut hs: f64 = 0.;
                for i in index.iter() {
                    let i_ = *i;
                    gs += grad[i_] as f64;
                    hs += hess[i_] as f64;
                }
                (gs as f32, hs as f32, true)
            }""", """            SampleMethod::Random | SampleMethod::Goss => {
                // Accumulate using f64 for numeric fidelity.
                let (gs, hs) = index.iter().fold((0f64, 0f64), |(g, h), &i| {
                    (g + f64::from(grad[i]), h + f64::from(hess[i]))
                });
                (gs as f32, hs as f32, true)
            }"""))
r('T8_fit_child', (T, """                for n in new_nodes {
                    self.nodes.push(n.as_node(splitter.get_learning_rate()));
                    if !n.is_missing_leaf {
                        growable.add_node(n)
                    }
                }""", """                let learning_rate = splitter.get_learning_rate();
                for child in new_nodes.into_iter() {
                    let tree_node = child.as_node(learning_rate);
                    self.nodes.push(tree_node);
                    if child.is_missing_leaf {
                        continue;
                    }
                    growable.add_node(child);
                }"""))
r('T8_fit_step', (T, """            n_leaves -= 1;

            let new_nodes = splitter.split_node(
                &n_nodes, &mut node, &mut index, col_index, data, cuts, grad, hess, parallel,
            );

            let n_new_nodes = new_nodes.len();
            if n_new_nodes == 0 {
                n_leaves += 1;
            } else {
                self.nodes[n_idx].make_parent_node(node);
                n_leaves += n_new_nodes;
                n_nodes += n_new_nodes;""", """            let new_nodes = splitter.split_node(
                &n_nodes, &mut node, &mut index, col_index, data, cuts, grad, hess, parallel,
            );

            if !new_nodes.is_empty() {
                self.nodes[n_idx].make_parent_node(node);
                n_leaves = n_leaves - 1 + new_nodes.len();
                n_nodes += new_nodes.len();"""))
r('T8_fit_len', (T, """            let new_nodes = splitter.split_node(
                &n_nodes, &mut node, &mut index""", """            let next_num = self.nodes.len();
            let new_nodes = splitter.split_node(
                &next_num, &mut node, &mut index"""), (T, """                n_nodes += n_new_nodes;
""", ""), (T, """        let mut n_nodes = 1;
""", ""))
r('T8_fit_whilelet', (T, """            if (n_leaves + splitter.new_leaves_added()) > max_leaves {
                break;
            }""", """            let leaves_after_split = n_leaves + splitter.new_leaves_added();
            if leaves_after_split > max_leaves {
                break;
            }"""))
r('T8_pc_child', (T, """            let node_odds = odds(node.weight_value as f64 + current_logodds);
            if node.is_leaf {
                lo += node.weight_value as f64;
                break;
            }""", """            if node.is_leaf {
                lo += node.weight_value as f64;
                break;
            }
            let node_odds = odds(node.weight_value as f64 + current_logodds);"""))
r('T8_pc_ret', (T, """        let mut lo = current_logodds;
        loop {
            let node = &self.nodes[node_idx];
            let node_odds = odds(node.weight_value as f64 + current_logodds);
            if node.is_leaf {
                lo += node.weight_value as f64;
                break;
            }""", """        loop {
            let node = &self.nodes[node_idx];
            let node_odds = odds(node.weight_value as f64 + current_logodds);
            if node.is_leaf {
                return current_logodds + node.weight_value as f64;
            }"""), (T, """            contribs[node.split_feature] += delta;
            node_idx = child_idx;
        }
        lo
    }""", """            contribs[node.split_feature] += delta;
            node_idx = child_idx;
        }
    }"""))
# -- shapley / partial dependence
r('SH8_extend_el', (SH, """    unique_path.get_element_mut(unique_depth).feature_index = feature_index;
    unique_path.get_element_mut(unique_depth).zero_fraction = zero_fraction;
    unique_path.get_element_mut(unique_depth).one_fraction = one_fraction;
    unique_path.get_element_mut(unique_depth).pweight = if unique_depth == 0 { 1.0 } else { 0.0 };""", """    let element = unique_path.get_element_mut(unique_depth);
    element.feature_index = feature_index;
    element.zero_fraction = zero_fraction;
    element.one_fraction = one_fraction;
    element.pweight = if unique_depth == 0 { 1.0 } else { 0.0 };"""))
r('SH8_sum_local', (SH, """    for i in (0..unique_depth).rev() {
        if one_fraction != 0.0 {
            let tmp =
                (next_one_portion * (unique_depth + 1) as f32) / ((i + 1) as f32 * one_fraction);
            total += tmp;
            next_one_portion = unique_path.get_element(i).pweight
                - tmp * zero_fraction * ((unique_depth - i) as f32 / (unique_depth + 1) as f32);
        } else if zero_fraction != 0.0 {
            total += (unique_path.get_element(i).pweight / zero_fraction)
                / ((unique_depth - i) as f32 / (unique_depth + 1) as f32);
        } else if unique_path.get_element(i).pweight != 0.0 {
            panic!("Unique path {} must have zero weight", i);
        }
    }""", """    let path_len = (unique_depth + 1) as f32;
    for i in (0..unique_depth).rev() {
        let pweight = unique_path.get_element(i).pweight;
        let remaining = (unique_depth - i) as f32 / path_len;
        if one_fraction != 0.0 {
            let tmp = (next_one_portion * path_len) / ((i + 1) as f32 * one_fraction);
            total += tmp;
            next_one_portion = pweight - tmp * zero_fraction * remaining;
        } else if zero_fraction != 0.0 {
            total += (pweight / zero_fraction) / remaining;
        } else if pweight != 0.0 {
            panic!("Unique path {} must have zero weight", i);
        }
    }"""))
r('SH8_getel_share', (SH, """    fn get_element(&mut self, i: usize) -> &PathElement {
        if i == self.paths.len() {
            self.paths.push(PathElement::default());
            &self.paths[i]
        } else {
            // This will panic for us, if we are out of bounds.
            &self.paths[i]
        }
    }""", """    fn get_element(&mut self, i: usize) -> &PathElement {
        self.get_element_mut(i)
    }"""))
r('SH8_leaf_tuple', (SH, """            let w = unwound_path_sum(&mut unique_path, unique_depth, i);
            let el = unique_path.get_element(i);
            contribs[el.feature_index] +=
                f64::from(w * (el.one_fraction - el.zero_fraction) * node.weight_value);""", """            let w = unwound_path_sum(&mut unique_path, unique_depth, i);
            let PathElement { feature_index, zero_fraction, one_fraction, .. } =
                *unique_path.get_element(i);
            let delta = w * (one_fraction - zero_fraction) * node.weight_value;
            contribs[feature_index] += delta as f64;"""))
r('SH8_early', (SH, """            contribs[el.feature_index] +=
                f64::from(w * (el.one_fraction - el.zero_fraction) * node.weight_value);
        }
    } else {
        let next_node_idx""", """            contribs[el.feature_index] +=
                f64::from(w * (el.one_fraction - el.zero_fraction) * node.weight_value);
        }
        return;
    }
    {
        let next_node_idx"""))
r('SH8_fractions', (SH, """        let mut incoming_zero_fraction = 1.0;
        let mut incoming_one_fraction = 1.0;

        let mut path_index = 0;""", """        let (mut incoming_zero_fraction, mut incoming_one_fraction) = (1.0f32, 1.0f32);

        let mut path_index = 0usize;"""), (SH, """            incoming_zero_fraction = unique_path.get_element(path_index).zero_fraction;
            incoming_one_fraction = unique_path.get_element(path_index).one_fraction;
            unwind_path""", """            let previous = *unique_path.get_element(path_index);
            incoming_one_fraction = previous.one_fraction;
            incoming_zero_fraction = previous.zero_fraction;
            unwind_path"""))
r('PD8_cover', (PD, """        let left_cover = get_node_cover(tree, n.left_child);
        let right_cover = get_node_cover(tree, n.right_child);
        let missing_cover = if n.has_missing_branch() {
            get_node_cover(tree, n.missing_node)
        } else {
            0.0
        };""", """        let cover = |idx: usize| tree.nodes[idx].hessian_sum;
        let left_cover = cover(n.left_child);
        let right_cover = cover(n.right_child);
        let mut missing_cover = 0.0;
        if n.has_missing_branch() {
            missing_cover = cover(n.missing_node);
        }"""))
r('PD8_sumvars', (PD, """        tree_partial_dependence(
            tree,
            n.left_child,
            feature,
            value,
            proportion * (left_cover / total_cover),
            missing,
        ) + tree_partial_dependence(
            tree,
            n.right_child,
            feature,
            value,
            proportion * (right_cover / total_cover),
            missing,
        ) + missing_pd""", """        let recurse = |child: usize, cover: f32| {
            tree_partial_dependence(
                tree,
                child,
                feature,
                value,
                proportion * (cover / total_cover),
                missing,
            )
        };
        let left_pd = recurse(n.left_child, left_cover);
        let right_pd = recurse(n.right_child, right_cover);
        left_pd + right_pd + missing_pd"""))
# -- gradientbooster
r('G8_default_consts', (G, """fn default_colsample_bytree() -> f64 {
    1.0
}""", """const DEFAULT_COLSAMPLE_BYTREE: f64 = 1.0;
fn default_colsample_bytree() -> f64 {
    DEFAULT_COLSAMPLE_BYTREE
}"""))
r('G8_default_set', (G, """fn default_terminate_missing_features() -> HashSet<usize> {
    HashSet::new()
}""", """fn default_terminate_missing_features() -> HashSet<usize> {
    HashSet::default()
}"""))
r('G8_default_calls', (G, """            HashSet::new(),
            MissingNodeTreatment::AssignToParent,
            0,
            false,
        )
        .unwrap()""", """            default_terminate_missing_features(),
            default_missing_node_treatment(),
            default_log_iterations(),
            default_force_children_to_bound_parent(),
        )
        .unwrap()"""))
r('G8_set_struct', (G, """    pub fn set_l1(mut self, l1: f32) -> Self {
        self.l1 = l1;
        self
    }""", """    pub fn set_l1(self, l1: f32) -> Self {
        GradientBooster { l1, ..self }
    }"""))
r('G8_best_iter', (G, """    fn update_best_iteration(&mut self, i: usize) {
        self.best_iteration = Some(i);
        self.prediction_iteration = Some(i + 1);
    }""", """    fn update_best_iteration(&mut self, i: usize) {
        let n_trees = i + 1;
        (self.best_iteration, self.prediction_iteration) = (Some(i), Some(n_trees));
    }"""))
r('S8_best_le', (S, """            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }
        }
        best_split_info""", """            if let Some(info) = split_info {
                if info.split_gain <= best_gain {
                    continue;
                }
                best_gain = info.split_gain;
                best_split_info = Some(info);
            }
        }
        best_split_info"""))
