from refactors import r
G, T, N, S, B, U, H, D, M, O, SH, PD, SA, GR = ('src/%s.rs' % x for x in ('gradientbooster', 'tree', 'node', 'splitter', 'binning', 'utils', 'histogram', 'data', 'metric', 'objective', 'shapley', 'partial_dependence', 'sampler', 'grower'))
r('A11_ends_loop', (H, """            col_index
                .iter()
                .scan(0_usize, |state, i| {
                    *state += cuts.get_col(*i).len();
                    Some(*state)
                })
                .collect()
        };""", """            let mut ends = Vec::with_capacity(col_index.len());
            let mut total = 0_usize;
            for i in col_index {
                total += cuts.get_col(*i).len();
                ends.push(total);
            }
            ends
        };"""))
r('A11_ends_fold', (H, """            col_index
                .iter()
                .scan(0_usize, |state, i| {
                    *state += cuts.get_col(*i).len();
                    Some(*state)
                })
                .collect()
        };""", """            let mut ends: Vec<usize> = Vec::new();
            for i in col_index.iter() {
                let last = ends.last().copied().unwrap_or(0);
                ends.push(last + cuts.get_col(*i).len());
            }
            ends
        };"""))
r('A11_sorted_map', (H, """            let mut n_grad = Vec::new();
            let mut n_hess = Vec::new();
            for i in index {
                let i_ = *i;
                n_grad.push(grad[i_]);
                n_hess.push(hess[i_]);
            }
            (n_grad, n_hess)""", """            index.iter().map(|i| (grad[*i], hess[*i])).unzip()"""), (H, "let (sorted_grad, sorted_hess) = if !sort", "let (sorted_grad, sorted_hess): (Vec<f32>, Vec<f32>) = if !sort"))
r('A11_hist_bins', (H, """    let mut histogram: Vec<Bin<f64>> = Vec::with_capacity(cuts.len());
""", ""), (H, """    histogram.push(Bin::new_f64(f64::NAN));
""", """    let mut histogram = vec![Bin::new_f64(f64::NAN)];
"""), (H, """    histogram.extend(cuts[..(cuts.len() - 1)].iter().map(|c| Bin::new_f64(*c)));""", """    for c in cuts.iter().take(cuts.len() - 1) {
        histogram.push(Bin::new_f64(*c));
    }"""))
r('A11_hist_split', (H, """    histogram.extend(cuts[..(cuts.len() - 1)].iter().map(|c| Bin::new_f64(*c)));""", """    if let Some((_max, rest)) = cuts.split_last() {
        histogram.extend(rest.iter().map(|c| Bin::new_f64(*c)));
    }"""))
r('A11_hist_idx', (H, """    index
        .iter()
        .zip(sorted_grad)
        .zip(sorted_hess)
        .for_each(|((i, g), h)| {
            if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                v.gradient_sum += f64::from(*g);
                v.hessian_sum += f64::from(*h);
            }
        });""", """    for (k, row) in index.iter().enumerate() {
        let bin = usize::from(feature[*row]);
        if bin < histogram.len() {
            let v = &mut histogram[bin];
            v.gradient_sum += sorted_grad[k] as f64;
            v.hessian_sum += sorted_hess[k] as f64;
        }
    }"""))
r('A11_hist_two', (H, """            if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                v.gradient_sum += f64::from(*g);
                v.hessian_sum += f64::from(*h);
            }""", """            let bin = feature[*i] as usize;
            if let Some(v) = histogram.get_mut(bin) {
                *v = Bin {
                    gradient_sum: v.gradient_sum + f64::from(*g),
                    hessian_sum: v.hessian_sum + f64::from(*h),
                    cut_value: v.cut_value,
                };
            }"""))
r('A11_best_iter', (S, """        for (i, bin) in histogram[1..].iter().enumerate() {""", """        for (i, bin) in histogram.iter().skip(1).enumerate() {"""))
r('A11_best_idx', (S, """        for (i, bin) in histogram[1..].iter().enumerate() {""", """        for i in 0..(histogram.len() - 1) {
            let bin = &histogram[i + 1];"""))
r('A11_best_zip', (S, """        for (i, bin) in histogram[1..].iter().enumerate() {""", """        for (split_bin, bin) in (1_u16..).zip(histogram[1..].iter()) {"""), (S, "split_bin: (i + 1) as u16,", "split_bin,"))
r('A11_best_letelse', (S, """            let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(""", """            let Some((mut left_node_info, mut right_node_info, missing_info)) = self.evaluate_split("""), (S, """                constraint,
            ) {
                None => {
                    continue;
                }
                Some(v) => v,
            };""", """                constraint,
            ) else {
                continue;
            };"""))
r('A11_best_max', (S, """            if max_gain.is_none() || split_gain > max_gain.unwrap() {
                max_gain = Some(split_gain);""", """            let better = match max_gain {
                Some(best) => split_gain > best,
                None => true,
            };
            if better {
                max_gain = Some(split_gain);"""))
r('A11_best_mapor', (S, """            if max_gain.is_none() || split_gain > max_gain.unwrap() {
                max_gain = Some(split_gain);""", """            if max_gain.map_or(true, |best| best < split_gain) {
                max_gain.replace(split_gain);"""))
r('A11_best_noneed', (S, """            if max_gain.is_none() || split_gain > max_gain.unwrap() {
                max_gain = Some(split_gain);""", """            if split_info.as_ref().map_or(true, |s| split_gain > s.split_gain) {"""), (S, """        let mut max_gain: Option<f32> = None;

        let HistogramMatrix(histograms) = &node.histograms;""", """        let HistogramMatrix(histograms) = &node.histograms;"""))
r('A11_best_bounds', (S, """            left_node_info.bounds = left_bounds;
            right_node_info.bounds = right_bounds;

            // If split gain is NaN""", """            let left_node_info = NodeInfo { bounds: left_bounds, ..left_node_info };
            let right_node_info = NodeInfo { bounds: right_bounds, ..right_node_info };

            // If split gain is NaN"""), (S, "let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(", "let (left_node_info, right_node_info, missing_info) = match self.evaluate_split("))
r('A11_split_map', (S, """        match self.best_split(node, col_index) {
            Some(split_info) => self.handle_split_info(
                split_info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
            ),
            None => Vec::new(),
        }""", """        self.best_split(node, col_index)
            .map(|split_info| {
                self.handle_split_info(
                    split_info, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel,
                )
            })
            .unwrap_or_default()"""))
r('A11_avg_missing', (S, """        if let Some(n) = tree.nodes.get_mut(current_node) {
            n.weight_value = update as f32;
        }""", """        tree.nodes[current_node].weight_value = update as f32;"""), (S, """            if let Some(m) = tree.nodes.get_mut(missing) {
                m.weight_value = update as f32;
            }""", """            tree.nodes[missing].weight_value = update as f32;"""))
r('A11_cleanup', (S, """        if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
            MissingBranchSplitter::update_average_missing_nodes(tree, 0);
        }""", """        match self.missing_node_treatment {
            MissingNodeTreatment::AverageLeafWeight => {
                Self::update_average_missing_nodes(tree, 0);
            }
            _ => (),
        }"""))
r('A11_path_resize', (SH, """        if i == self.paths.len() {
            self.paths.push(PathElement::default());
            &mut self.paths[i]
        } else {
            // This will panic for us, if we are out of bounds.
            &mut self.paths[i]
        }""", """        if i == self.paths.len() {
            self.paths.push(PathElement::default());
        }
        &mut self.paths[i]"""))
r('A11_extend_struct', (SH, """    unique_path.get_element_mut(unique_depth).feature_index = feature_index;
    unique_path.get_element_mut(unique_depth).zero_fraction = zero_fraction;
    unique_path.get_element_mut(unique_depth).one_fraction = one_fraction;
    unique_path.get_element_mut(unique_depth).pweight = if unique_depth == 0 { 1.0 } else { 0.0 };""", """    *unique_path.get_element_mut(unique_depth) = PathElement {
        feature_index,
        zero_fraction,
        one_fraction,
        pweight: if unique_depth == 0 { 1.0 } else { 0.0 },
    };"""))
r('A11_extend_el', (SH, """    unique_path.get_element_mut(unique_depth).feature_index = feature_index;
    unique_path.get_element_mut(unique_depth).zero_fraction = zero_fraction;
    unique_path.get_element_mut(unique_depth).one_fraction = one_fraction;
    unique_path.get_element_mut(unique_depth).pweight = if unique_depth == 0 { 1.0 } else { 0.0 };""", """    let el = unique_path.get_element_mut(unique_depth);
    el.feature_index = feature_index;
    el.zero_fraction = zero_fraction;
    el.one_fraction = one_fraction;
    el.pweight = f32::from(unique_depth == 0);"""))
r('A11_hotcold', (SH, """    if node.has_missing_branch() {
        // we know there will be 3 children if there is a missing branch.
        if next_node_idx == node.right_child {
            vec![node.right_child, node.left_child, node.missing_node]
        } else if next_node_idx == node.left_child {
            vec![node.left_child, node.right_child, node.missing_node]
        } else {
            vec![node.missing_node, node.left_child, node.right_child]
        }
    } else if next_node_idx == node.right_child {
        vec![node.right_child, node.left_child]
    } else {
        vec![node.left_child, node.right_child]
    }""", """    let three = node.has_missing_branch();
    let mut children = if next_node_idx == node.right_child {
        vec![node.right_child, node.left_child]
    } else if !three || next_node_idx == node.left_child {
        vec![node.left_child, node.right_child]
    } else {
        return vec![node.missing_node, node.left_child, node.right_child];
    };
    if three {
        children.push(node.missing_node);
    }
    children"""))
r('A11_shap_find', (SH, """        let mut path_index = 0;
        while path_index <= unique_depth {
            if unique_path.get_element(path_index).feature_index == node.split_feature {
                break;
            }
            path_index += 1;
        }
""", """        let mut path_index = 0;
        while path_index <= unique_depth
            && unique_path.get_element(path_index).feature_index != node.split_feature
        {
            path_index += 1;
        }
"""))
r('A11_shap_for', (SH, """        let mut path_index = 0;
        while path_index <= unique_depth {
            if unique_path.get_element(path_index).feature_index == node.split_feature {
                break;
            }
            path_index += 1;
        }
""", """        let mut path_index = unique_depth + 1;
        for i in 0..=unique_depth {
            if unique_path.get_element(i).feature_index == node.split_feature {
                path_index = i;
                break;
            }
        }
"""))
r('A11_shap_pos', (SH, """        let mut path_index = 0;
        while path_index <= unique_depth {
            if unique_path.get_element(path_index).feature_index == node.split_feature {
                break;
            }
            path_index += 1;
        }

        if path_index != (unique_depth + 1) {""", """        let found = (0..=unique_depth)
            .find(|i| unique_path.get_element(*i).feature_index == node.split_feature);

        if let Some(path_index) = found {"""))
r('A11_shap_leaf', (SH, """        for i in 1..(unique_depth + 1) {""", """        for i in 1..=unique_depth {"""))
r('A11_pd_closure', (PD, """        let total_cover = left_cover + right_cover + missing_cover;
        let missing_pd = if n.has_missing_branch() {
            tree_partial_dependence(
                tree,
                n.missing_node,
                feature,
                value,
                proportion * (missing_cover / total_cover),
                missing,
            )
        } else {
            0.
        };
        tree_partial_dependence(
            tree,
            n.left_child,
            feature,
            value,
            proportion * (left_cover / total_cover),
            missing,
        ) + tree_partial_dependence(
            tree,
            n.right_child,
            feature,
            value,
            proportion * (right_cover / total_cover),
            missing,
        ) + missing_pd""", """        let total_cover = left_cover + right_cover + missing_cover;
        let descend = |child: usize, cover: f32| {
            let share = cover / total_cover;
            tree_partial_dependence(tree, child, feature, value, proportion * share, missing)
        };
        let both = descend(n.left_child, left_cover) + descend(n.right_child, right_cover);
        if n.has_missing_branch() {
            both + descend(n.missing_node, missing_cover)
        } else {
            both
        }"""))
r('A11_pd_loop', (PD, """        let total_cover = left_cover + right_cover + missing_cover;
        let missing_pd = if n.has_missing_branch() {
            tree_partial_dependence(
                tree,
                n.missing_node,
                feature,
                value,
                proportion * (missing_cover / total_cover),
                missing,
            )
        } else {
            0.
        };
        tree_partial_dependence(
            tree,
            n.left_child,
            feature,
            value,
            proportion * (left_cover / total_cover),
            missing,
        ) + tree_partial_dependence(
            tree,
            n.right_child,
            feature,
            value,
            proportion * (right_cover / total_cover),
            missing,
        ) + missing_pd""", """        let total_cover = left_cover + right_cover + missing_cover;
        let mut children = vec![(n.left_child, left_cover), (n.right_child, right_cover)];
        if n.has_missing_branch() {
            children.push((n.missing_node, missing_cover));
        }
        children
            .into_iter()
            .map(|(child, cover)| {
                tree_partial_dependence(
                    tree,
                    child,
                    feature,
                    value,
                    proportion * (cover / total_cover),
                    missing,
                )
            })
            .sum()"""))
r('A11_rmse_fold', (M, """    let mut w_sum = 0.;
    let res = y
        .iter()
        .zip(yhat)
        .zip(sample_weight)
        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            (y_ - yhat_).powi(2) * *w_
        })
        .sum::<f64>();
    (res / w_sum).sqrt()""", """    let (res, w_sum) = y.iter().zip(yhat).zip(sample_weight).fold(
        (0., 0.),
        |(res, w_sum), ((y_, yhat_), w_)| {
            let e = y_ - yhat_;
            (res + e * e * w_, w_sum + w_)
        },
    );
    f64::sqrt(res / w_sum)"""))
r('A11_auc_windows', (M, """    for i in 1..indices.len() {
        if yhat[indices[i]] != yhat[indices[i - 1]] {""", """    for pair in indices.windows(2) {
        let (prev, cur) = (pair[0], pair[1]);
        if yhat[cur] != yhat[prev] {"""), (M, """        label = y[indices[i]];
        w = sample_weight[indices[i]];""", """        label = y[cur];
        w = sample_weight[cur];"""))
r('A11_auc_skip', (M, """    for i in 1..indices.len() {
        if yhat[indices[i]] != yhat[indices[i - 1]] {""", """    let mut previous = yhat[indices[0]];
    for &k in indices.iter().skip(1) {
        if yhat[k] != previous {"""), (M, """        label = y[indices[i]];
        w = sample_weight[indices[i]];
        fp += (1.0 - label) * w;""", """        previous = yhat[k];
        label = y[k];
        w = sample_weight[k];
        fp += (1.0 - label) * w;"""))
r('A11_auc_end', (M, """    if fp <= 0.0 || tp <= 0.0 {
        auc = 0.0;
        fp = 0.0;
        tp = 0.0;
    }

    auc / (tp * fp)""", """    if fp <= 0.0 || tp <= 0.0 {
        return 0.0 / 0.0;
    }

    auc / (tp * fp)"""))
r('A11_auc_nan', (M, """    if fp <= 0.0 || tp <= 0.0 {
        auc = 0.0;
        fp = 0.0;
        tp = 0.0;
    }

    auc / (tp * fp)""", """    if fp <= 0.0 || tp <= 0.0 {
        return f64::NAN;
    }

    auc / (tp * fp)"""))
r('A11_init_zip', (O, """        let mut ytot: f64 = 0.;
        let mut ntot: f64 = 0.;
        for i in 0..y.len() {
            ytot += sample_weight[i] * y[i];
            ntot += sample_weight[i];
        }
        f64::ln(ytot / (ntot - ytot))""", """        let ytot: f64 = y.iter().zip(sample_weight).map(|(y_, w_)| y_ * w_).sum();
        let ntot: f64 = sample_weight.iter().sum();
        (ytot / (ntot - ytot)).ln()"""))
r('A11_grad_push', (O, """        y.iter()
            .zip(yhat)
            .zip(sample_weight)
            .map(|((y_, yhat_), w_)| (((yhat_ - *y_) * *w_) as f32, *w_ as f32))
            .unzip()""", """        let grad = y
            .iter()
            .zip(yhat.iter())
            .zip(sample_weight.iter())
            .map(|((y_, yhat_), w_)| ((yhat_ - y_) * w_) as f32)
            .collect();
        let hess = sample_weight.iter().map(|w_| *w_ as f32).collect();
        (grad, hess)"""))
r('A11_child_match', (N, """        if is_missing(v, missing) {
            self.missing_node
        } else if v < &self.split_value {
            self.left_child
        } else {
            self.right_child
        }""", """        match (is_missing(v, missing), *v < self.split_value) {
            (true, _) => self.missing_node,
            (false, true) => self.left_child,
            (false, false) => self.right_child,
        }"""))
r('A11_gain_iflet', (N, """        let missing_split_gain = match &missing_node_info {
            MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) => ni.gain,
            _ => 0.,
        };
        left_node_info.gain + right_node_info.gain + missing_split_gain - self.gain_value - gamma""", """        let mut children_gain = left_node_info.gain + right_node_info.gain;
        if let MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) = missing_node_info {
            children_gain += ni.gain;
        }
        children_gain - self.gain_value - gamma"""))
r('A11_stats_match', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        let entry = stats.entry(node.split_feature).or_insert((0., 0));
        entry.0 += calc_stat(node);
        entry.1 += 1;"""))
r('A11_stats_get', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        let s = calc_stat(node);
        match stats.get_mut(&node.split_feature) {
            Some((v, c)) => {
                *v += s;
                *c += 1;
            }
            None => {
                stats.insert(node.split_feature, (s, 1));
            }
        }"""))
r('A11_stats_children', (T, """        self.calc_feature_node_stats(calc_stat, &self.nodes[node.left_child], stats);
        self.calc_feature_node_stats(calc_stat, &self.nodes[node.right_child], stats);
        if node.has_missing_branch() {
            self.calc_feature_node_stats(calc_stat, &self.nodes[node.missing_node], stats);
        }""", """        for child in [node.left_child, node.right_child] {
            self.calc_feature_node_stats(calc_stat, &self.nodes[child], stats);
        }
        if node.has_missing_branch() {
            self.calc_feature_node_stats(calc_stat, &self.nodes[node.missing_node], stats);
        }"""))
r('A11_dist_early', (T, """        let mut w = node.weight_value as f64;
        if !node.is_leaf {
            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            w = left_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.left_child, weights);
            w += right_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.right_child, weights);
            // If this a tree with a missing branch.
            if node.has_missing_branch() {
                let missing_node = &self.nodes[node.missing_node];
                w += missing_node.hessian_sum as f64
                    * self.distribute_node_leaf_weights(node.missing_node, weights);
            }
            w /= node.hessian_sum as f64;
        }
        weights[i] = w;
        w""", """        if node.is_leaf {
            weights[i] = f64::from(node.weight_value);
            return weights[i];
        }
        let cover = |n: usize| self.nodes[n].hessian_sum as f64;
        let mut w = cover(node.left_child)
            * self.distribute_node_leaf_weights(node.left_child, weights)
            + cover(node.right_child) * self.distribute_node_leaf_weights(node.right_child, weights);
        if node.has_missing_branch() {
            w += cover(node.missing_node)
                * self.distribute_node_leaf_weights(node.missing_node, weights);
        }
        weights[i] = w / cover(i);
        weights[i]"""))
r('A11_display', (T, """            if node.is_leaf {
                r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();
            } else {
                r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();
                print_buffer.push(node.right_child);""", """            r += format!("{}{}\\n", "      ".repeat(node.depth).as_str(), node).as_str();
            if !node.is_leaf {
                print_buffer.push(node.right_child);"""))
