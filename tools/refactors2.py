"""Second set of behaviour-preserving edits: larger rewrites."""
from refactors import r, U, T, S, N, H, G, M, O, SA, B, D, P, SH

# ------------------------------------------------------------------ splitter
r('S2_best_fold', (S, """        let mut best_split_info = None;
        let mut best_gain = 0.0;
        for (idx, feature) in col_index.iter().enumerate() {
            let split_info = self.best_feature_split(node, *feature, idx);
            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }
        }
        best_split_info""", """        let mut best: Option<SplitInfo> = None;
        for (idx, feature) in col_index.iter().enumerate() {
            if let Some(info) = self.best_feature_split(node, *feature, idx) {
                let threshold = best.as_ref().map_or(0.0, |b| b.split_gain);
                if info.split_gain > threshold {
                    best = Some(info);
                }
            }
        }
        best"""))
r('S2_best_index', (S, """        for (idx, feature) in col_index.iter().enumerate() {
            let split_info = self.best_feature_split(node, *feature, idx);""", """        for idx in 0..col_index.len() {
            let split_info = self.best_feature_split(node, col_index[idx], idx);"""))
r('S2_best_filter_map', (S, """        for (idx, feature) in col_index.iter().enumerate() {
            let split_info = self.best_feature_split(node, *feature, idx);
            match split_info {
                Some(info) => {
                    if info.split_gain > best_gain {
                        best_gain = info.split_gain;
                        best_split_info = Some(info);
                    }
                }
                None => continue,
            }
        }""", """        let candidates = col_index
            .iter()
            .enumerate()
            .filter_map(|(idx, feature)| self.best_feature_split(node, *feature, idx));
        for info in candidates {
            if info.split_gain > best_gain {
                best_gain = info.split_gain;
                best_split_info = Some(info);
            }
        }"""))
r('S2_feat_range', (S, "        for (i, bin) in histogram[1..].iter().enumerate() {", "        for i in 0..(histogram.len() - 1) {\n            let bin = &histogram[i + 1];"))
r('S2_feat_range1', (S, "        for (i, bin) in histogram[1..].iter().enumerate() {", "        for i in 1..histogram.len() {\n            let bin = &histogram[i];"), (S, "(i + 1) as u16", "i as u16"))
r('S2_feat_skip', (S, "        for (i, bin) in histogram[1..].iter().enumerate() {", "        for (i, bin) in histogram.iter().enumerate().skip(1) {"), (S, "(i + 1) as u16", "i as u16"))
r('S2_feat_tail', (S, """            cuml_grad += bin.gradient_sum;
            cuml_hess += bin.hessian_sum;

            let (mut""", """            let cut_value = bin.cut_value;
            cuml_hess += bin.hessian_sum;
            cuml_grad += bin.gradient_sum;

            let (mut"""), (S, "split_value: bin.cut_value", "split_value: cut_value"))
r('S2_feat_totals', (S, """        let elements = histogram.len();
        assert!(elements == histogram.len());
""", """        let present_gradient = node.gradient_sum - missing.gradient_sum;
        let present_hessian = node.hessian_sum - missing.hessian_sum;
"""), (S, """            let right_gradient = node.gradient_sum - cuml_grad - missing.gradient_sum;
            let right_hessian = node.hessian_sum - cuml_hess - missing.hessian_sum;
""", """            let right_gradient = present_gradient - cuml_grad;
            let right_hessian = present_hessian - cuml_hess;
"""))
r('S2_feat_method', (S, """            let mid = (left_node_info.weight + right_node_info.weight) / 2.0;
            let (left_bounds, right_bounds) = match constraint {
                None | Some(Constraint::Unconstrained) => (
                    (node.lower_bound, node.upper_bound),
                    (node.lower_bound, node.upper_bound),
                ),
                Some(Constraint::Negative) => ((mid, node.upper_bound), (node.lower_bound, mid)),
                Some(Constraint::Positive) => ((node.lower_bound, mid), (mid, node.upper_bound)),
            };
            left_node_info.bounds = left_bounds;
            right_node_info.bounds = right_bounds;
""", """            self.assign_bounds(node, constraint, &mut left_node_info, &mut right_node_info);
"""), (S, """    /// The idx is the index of the feature in the histogram data""", """    fn assign_bounds(
        &self,
        node: &SplittableNode,
        constraint: Option<&Constraint>,
        left: &mut NodeInfo,
        right: &mut NodeInfo,
    ) {
        let mid = (left.weight + right.weight) / 2.0;
        left.bounds = (node.lower_bound, node.upper_bound);
        right.bounds = (node.lower_bound, node.upper_bound);
        match constraint {
            Some(Constraint::Negative) => {
                left.bounds.0 = mid;
                right.bounds.1 = mid;
            }
            Some(Constraint::Positive) => {
                left.bounds.1 = mid;
                right.bounds.0 = mid;
            }
            _ => {}
        }
    }

    /// The idx is the index of the feature in the histogram data"""))
r('S2_feat_gainorder', (S, """            if split_gain <= 0.0 {
                continue;
            }

            let mid""", """            if split_gain <= 0.0 {
                continue;
            }
            // If split gain is NaN, one of the sides is empty, do not allow
            // this split.
            let split_gain = if split_gain.is_nan() { 0.0 } else { split_gain };
            let improves = match max_gain {
                None => true,
                Some(m) => split_gain > m,
            };
            if !improves {
                continue;
            }

            let mid"""), (S, """            // If split gain is NaN, one of the sides is empty, do not allow
            // this split.
            let split_gain = if split_gain.is_nan() { 0.0 } else { split_gain };
            if max_gain.is_none() || split_gain > max_gain.unwrap() {
                max_gain = Some(split_gain);
                split_info = Some(SplitInfo {
                    split_gain,
                    split_feature: feature,
                    split_value: bin.cut_value,
                    split_bin: (i + 1) as u16,
                    left_node: left_node_info,
                    right_node: right_node_info,
                    missing_node: missing_info,
                });
            }
""", """            max_gain = Some(split_gain);
            split_info = Some(SplitInfo {
                split_gain,
                split_feature: feature,
                split_value: bin.cut_value,
                split_bin: (i + 1) as u16,
                left_node: left_node_info,
                right_node: right_node_info,
                missing_node: missing_info,
            });
"""))
r('S2_feat_isnonemax', (S, "            if max_gain.is_none() || split_gain > max_gain.unwrap() {", "            if split_info.as_ref().map_or(true, |best| split_gain > best.split_gain) {"), (S, "                max_gain = Some(split_gain);\n", ""), (S, "        let mut max_gain: Option<f32> = None;\n", ""))
r('S2_eval_drop_dup', (S, """        };

        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
            // Update for new value
            return None;
        }
        Some((""", """        };

        Some(("""))
r('S2_eval_early', (S, """            return None;
        }

        let mut left_weight = constrained_weight(
            &self.l1,
            &self.l2,
            &self.max_delta_step,
            left_gradient,
            left_hessian,
            lower_bound,
            upper_bound,
            constraint,
        );
        let mut right_weight = constrained_weight(
            &self.l1,
            &self.l2,
            &self.max_delta_step,
            right_gradient,
            right_hessian,
            lower_bound,
            upper_bound,
            constraint,
        );

        if self.force""", """            return None;
        }
        if right_hessian.min(left_hessian) < self.min_leaf_weight {
            return None;
        }

        let child_weight = |gradient: f32, hessian: f32| {
            constrained_weight(
                &self.l1,
                &self.l2,
                &self.max_delta_step,
                gradient,
                hessian,
                lower_bound,
                upper_bound,
                constraint,
            )
        };
        let mut left_weight = child_weight(left_gradient, left_hessian);
        let mut right_weight = child_weight(right_gradient, right_hessian);

        if self.force"""), (S, """        // Check the min_hessian constraint first
        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
            // Update for new value
            return None;
        }

        // We have not""", """        // We have not"""))
r('S2_eval_missingnode', (S, """        let missing_node = // Check Missing direction
        if ((missing_gradient != 0.0) || (missing_hessian != 0.0)) && self.allow_missing_splits {
            MissingInfo::Branch(
                missing_info
            )
        } else {
            MissingInfo::Leaf(
                missing_info
            )
        };
""", """        let has_missing = !(missing_gradient == 0.0 && missing_hessian == 0.0);
        let missing_node = match (has_missing, self.allow_missing_splits) {
            (true, true) => MissingInfo::Branch(missing_info),
            _ => MissingInfo::Leaf(missing_info),
        };
"""))
r('S2_eval_avg', (S, """                (right_weight * right_hessian + left_weight * left_hessian)
                    / (right_hessian + left_hessian)""", """                let total = left_hessian + right_hessian;
                (left_weight * left_hessian + right_weight * right_hessian) / total"""))
r('S2_eval_infoctor', (S, """        Some((
            NodeInfo {
                grad: left_gradient,
                gain: left_gain,
                cover: left_hessian,
                weight: left_weight,
                bounds: (f32::NEG_INFINITY, f32::INFINITY),
            },
            NodeInfo {
                grad: right_gradient,
                gain: right_gain,
                cover: right_hessian,
                weight: right_weight,
                bounds: (f32::NEG_INFINITY, f32::INFINITY),
            },
            missing_node,
        ))""", """        let left = NodeInfo::unbounded(left_gradient, left_gain, left_hessian, left_weight);
        let right = NodeInfo::unbounded(right_gradient, right_gain, right_hessian, right_weight);
        Some((left, right, missing_node))"""), (S, """#[derive(Debug)]
pub enum MissingInfo {""", """impl NodeInfo {
    fn unbounded(grad: f32, gain: f32, cover: f32, weight: f32) -> Self {
        NodeInfo {
            grad,
            gain,
            cover,
            weight,
            bounds: (f32::NEG_INFINITY, f32::INFINITY),
        }
    }
}

#[derive(Debug)]
pub enum MissingInfo {"""))
r('S2_imp_helper', (S, """            // The weight if missing went left
            let missing_left_weight = constrained_weight(
                &self.l1,
                &self.l2,
                &self.max_delta_step,
                left_gradient + missing_gradient,
                left_hessian + missing_hessian,
                lower_bound,
                upper_bound,
                constraint,
            );
            // The gain if missing went left
            let missing_left_gain = gain_given_weight(
                &self.l2,
                left_gradient + missing_gradient,
                left_hessian + missing_hessian,
                missing_left_weight,
            );
""", """            let (missing_left_weight, missing_left_gain) = self.weight_and_gain(
                left_gradient + missing_gradient,
                left_hessian + missing_hessian,
                lower_bound,
                upper_bound,
                constraint,
            );
"""), (S, """            // The gain if missing went right
            let missing_right_weight = constrained_weight(
                &self.l1,
                &self.l2,
                &self.max_delta_step,
                right_gradient + missing_gradient,
                right_hessian + missing_hessian,
                lower_bound,
                upper_bound,
                constraint,
            );
            // The gain is missing went right
            let missing_right_gain = gain_given_weight(
                &self.l2,
                right_gradient + missing_gradient,
                right_hessian + missing_hessian,
                missing_right_weight,
            );
""", """            let (missing_right_weight, missing_right_gain) = self.weight_and_gain(
                right_gradient + missing_gradient,
                right_hessian + missing_hessian,
                lower_bound,
                upper_bound,
                constraint,
            );
"""), (S, """impl Splitter for MissingImputerSplitter {""", """impl MissingImputerSplitter {
    fn weight_and_gain(
        &self,
        gradient: f32,
        hessian: f32,
        lower_bound: f32,
        upper_bound: f32,
        constraint: Option<&Constraint>,
    ) -> (f32, f32) {
        let w = constrained_weight(
            &self.l1,
            &self.l2,
            &self.max_delta_step,
            gradient,
            hessian,
            lower_bound,
            upper_bound,
            constraint,
        );
        (w, gain_given_weight(&self.l2, gradient, hessian, w))
    }
}

impl Splitter for MissingImputerSplitter {"""))
r('S2_imp_shadow', (S, """        // By default missing values will go into the right node.
        let mut missing_info = MissingInfo::Right;

        let mut left_gradient = left_gradient;
        let mut left_hessian = left_hessian;

        let mut right_gradient = right_gradient;
        let mut right_hessian = right_hessian;
""", """        // By default missing values will go into the right node.
        let mut missing_info = MissingInfo::Right;
        let (mut left_gradient, mut left_hessian) = (left_gradient, left_hessian);
        let (mut right_gradient, mut right_hessian) = (right_gradient, right_hessian);
"""), (S, """            if (missing_right_gain - right_gain) < (missing_left_gain - left_gain) {""", """            let left_improvement = missing_left_gain - left_gain;
            let right_improvement = missing_right_gain - right_gain;
            if left_improvement > right_improvement {"""), (S, """                right_weight = missing_right_weight;
                missing_info = MissingInfo::Right;
""", """                right_weight = missing_right_weight;
"""))
r('S2_imp_minhess', (S, """        if !self.allow_missing_splits {
            // Check the min_hessian constraint first, if we do not
            // want to allow missing only splits.
            if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
                // Update for new value
                return None;
            }
        }
""", """        let too_small =
            |hessian: f32| -> bool { hessian < self.min_leaf_weight };
        if !self.allow_missing_splits && (too_small(left_hessian) || too_small(right_hessian)) {
            return None;
        }
"""))
r('S2_handle_max', (S, """        let max_ = match [n_missing, n_left, n_right]
            .iter()
            .enumerate()
            .max_by(|(_, i), (_, j)| i.cmp(j))
        {
            Some((i, _)) => i,
            // if we can't compare them, it doesn't
            // really matter, build the histogram on
            // any of them.
            None => 0,
        };
""", """        let max_ = if n_right >= n_left && n_right >= n_missing {
            2
        } else if n_left >= n_missing {
            1
        } else {
            0
        };
"""))
r('S2_handle_maxkey', (S, """        let max_ = match [n_missing, n_left, n_right]
            .iter()
            .enumerate()
            .max_by(|(_, i), (_, j)| i.cmp(j))
        {
            Some((i, _)) => i,
            // if we can't compare them, it doesn't
            // really matter, build the histogram on
            // any of them.
            None => 0,
        };
""", """        let max_ = [n_missing, n_left, n_right]
            .iter()
            .enumerate()
            .max_by_key(|(_, n)| **n)
            .map_or(0, |(i, _)| i);
"""))
r('S2_handle_empty', (S, """            if max_ == 1 {
                missing_histograms = HistogramMatrix::empty();
                right_histograms""", """            missing_histograms = HistogramMatrix::empty();
            if max_ == 1 {
                right_histograms"""), (S, """            } else {
                missing_histograms = HistogramMatrix::empty();
                left_histograms""", """            } else {
                left_histograms"""))
r('S2_handle_start', (S, """        let (mut missing_split_idx, mut split_idx) = pivot_on_split_exclude_missing(
            &mut index[node.start_idx..node.stop_idx],
            data.get_col(split_info.split_feature),
            split_info.split_bin,
        );
        // Calculate histograms
        let total_recs = node.stop_idx - node.start_idx;
        let n_right = total_recs - split_idx;
        let n_left = total_recs - n_right - missing_split_idx;
        let n_missing = total_recs - (n_right + n_left);
""", """        let (start, stop) = (node.start_idx, node.stop_idx);
        let (missing_offset, split_offset) = pivot_on_split_exclude_missing(
            &mut index[start..stop],
            data.get_col(split_info.split_feature),
            split_info.split_bin,
        );
        let missing_split_idx = start + missing_offset;
        let split_idx = start + split_offset;
        let n_missing = missing_split_idx - start;
        let n_left = split_idx - missing_split_idx;
        let n_right = stop - split_idx;
"""), (S, """        split_idx += node.start_idx;
        missing_split_idx += node.start_idx;

        // Build""", """
        // Build"""))
r('S2_handle_imp', (S, """        let mut split_idx = pivot_on_split(
            &mut index[node.start_idx..node.stop_idx],
            data.get_col(split_info.split_feature),
            split_info.split_bin,
            missing_right,
        );
        // Calculate histograms
        let total_recs = node.stop_idx - node.start_idx;
        let n_right = total_recs - split_idx;
        let n_left = total_recs - n_right;

        // Now that we have calculated the number of records
        // add the start index, to make the split_index
        // relative to the entire index array
        split_idx += node.start_idx;
""", """        let n_left = pivot_on_split(
            &mut index[node.start_idx..node.stop_idx],
            data.get_col(split_info.split_feature),
            split_info.split_bin,
            missing_right,
        );
        let n_right = node.stop_idx - node.start_idx - n_left;
        let split_idx = node.start_idx + n_left;
"""), (S, """        let left_histograms: HistogramMatrix;
        let right_histograms: HistogramMatrix;
        if n_left < n_right {
            left_histograms = HistogramMatrix::new(
                data,
                cuts,
                grad,
                hess,
                &index[node.start_idx..split_idx],
                col_index,
                parallel,
                true,
            );
            right_histograms =
                HistogramMatrix::from_parent_child(&node.histograms, &left_histograms);
        } else {
            right_histograms = HistogramMatrix::new(
                data,
                cuts,
                grad,
                hess,
                &index[split_idx..node.stop_idx],
                col_index,
                parallel,
                true,
            );
            left_histograms =
                HistogramMatrix::from_parent_child(&node.histograms, &right_histograms);
        }
        let missing_child = if missing_right {
            right_child
        } else {
            left_child
        };
        node.update_children(missing_child, left_child, right_child, &split_info);
""", """        let smaller = if n_left < n_right {
            &index[node.start_idx..split_idx]
        } else {
            &index[split_idx..node.stop_idx]
        };
        let built =
            HistogramMatrix::new(data, cuts, grad, hess, smaller, col_index, parallel, true);
        let derived = HistogramMatrix::from_parent_child(&node.histograms, &built);
        let (left_histograms, right_histograms) = if n_left < n_right {
            (built, derived)
        } else {
            (derived, built)
        };
        let missing_child = left_child + usize::from(missing_right);
        node.update_children(missing_child, left_child, right_child, &split_info);
"""))
r('S2_handle_matches', (S, """        let missing_right = match split_info.missing_node {
            MissingInfo::Left => false,
            MissingInfo::Right => true,
            _ => unreachable!(),
        };
""", """        let missing_right = matches!(split_info.missing_node, MissingInfo::Right);
"""))
r('S2_avg_loop', (S, """        let right_hessian = tree.nodes[right].hessian_sum as f64;
        let right_avg_weight = Self::update_average_missing_nodes(tree, right);

        let left_hessian = tree.nodes[left].hessian_sum as f64;
        let left_avg_weight = Self::update_average_missing_nodes(tree, left);
""", """        let left_avg_weight = Self::update_average_missing_nodes(tree, left);
        let right_avg_weight = Self::update_average_missing_nodes(tree, right);
        let left_hessian = f64::from(tree.nodes[left].hessian_sum);
        let right_hessian = f64::from(tree.nodes[right].hessian_sum);
"""))
r('S2_avg_missing', (S, """        let (missing_hessian, missing_avg_weight, missing_leaf) = if tree.nodes[missing].is_leaf {
            (0., 0., true)
        } else {
            (
                tree.nodes[missing].hessian_sum as f64,
                Self::update_average_missing_nodes(tree, missing),
                false,
            )
        };
""", """        let missing_leaf = tree.nodes[missing].is_leaf;
        let mut missing_hessian = 0.;
        let mut missing_avg_weight = 0.;
        if !missing_leaf {
            missing_hessian = tree.nodes[missing].hessian_sum as f64;
            missing_avg_weight = Self::update_average_missing_nodes(tree, missing);
        }
"""))
r('S2_cleanup_match', (S, """        if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
            MissingBranchSplitter::update_average_missing_nodes(tree, 0);
        }""", """        match self.missing_node_treatment {
            MissingNodeTreatment::AverageLeafWeight => {
                Self::update_average_missing_nodes(tree, 0);
            }
            _ => (),
        }"""))
# ------------------------------------------------------------------ tree
r('T2_fit_loop', (T, """        while !growable.is_empty() {
            // If this will push us over the max leaves parameter, break.
            if (n_leaves + splitter.new_leaves_added()) > max_leaves {
                break;
            }
""", """        while !growable.is_empty() && n_leaves + splitter.new_leaves_added() <= max_leaves {
"""))
r('T2_fit_loop2', (T, """        while !growable.is_empty() {
            // If this will push us over the max leaves parameter, break.
            if (n_leaves + splitter.new_leaves_added()) > max_leaves {
                break;
            }
""", """        loop {
            if growable.is_empty() {
                break;
            }
            let leaves_after_split = n_leaves + splitter.new_leaves_added();
            if leaves_after_split > max_leaves {
                break;
            }
"""))
r('T2_fit_depth', (T, """            let depth = node.depth + 1;

            // If we have hit max depth, skip this node
            // but keep going, because there may be other
            // valid shallower nodes.
            if depth > max_depth {
                continue;
            }
""", """            if node.depth >= max_depth {
                continue;
            }
"""))
r('T2_fit_nnodes', (T, """                &n_nodes, &mut node,""", """                &self.nodes.len(), &mut node,"""), (T, "        let mut n_nodes = 1;\n", ""), (T, "                n_nodes += n_new_nodes;\n", ""))
r('T2_fit_root', (T, """        let mut n_nodes = 1;
        let root_gain = gain(&splitter.get_l2(), gradient_sum, hessian_sum);
        let root_weight = weight(
            &splitter.get_l1(),
            &splitter.get_l2(),
            &splitter.get_max_delta_step(),
            gradient_sum,
            hessian_sum,
        );
        // Calculate the histograms for the root node.
        let root_hists =
            HistogramMatrix::new(data, cuts, grad, hess, &index, col_index, parallel, sort);
        let root_node = SplittableNode::new(
            0,
            root_hists,
            root_weight,
            root_gain,
            gradient_sum,
            hessian_sum,
            0,
            0,
            index.len(),
            f32::NEG_INFINITY,
            f32::INFINITY,
        );
""", """        let root_hists =
            HistogramMatrix::new(data, cuts, grad, hess, &index, col_index, parallel, sort);
        let root_node =
            Self::root_node(splitter, root_hists, gradient_sum, hessian_sum, index.len());
        let mut n_nodes = 1;
"""), (T, """    #[allow(clippy::too_many_arguments)]
    pub fn fit<T: Splitter>(""", """    fn root_node<T: Splitter>(
        splitter: &T,
        histograms: HistogramMatrix,
        gradient_sum: f32,
        hessian_sum: f32,
        n_records: usize,
    ) -> SplittableNode {
        let (l1, l2) = (splitter.get_l1(), splitter.get_l2());
        SplittableNode::new(
            0,
            histograms,
            weight(&l1, &l2, &splitter.get_max_delta_step(), gradient_sum, hessian_sum),
            gain(&l2, gradient_sum, hessian_sum),
            gradient_sum,
            hessian_sum,
            0,
            0,
            n_records,
            f32::NEG_INFINITY,
            f32::INFINITY,
        )
    }

    #[allow(clippy::too_many_arguments)]
    pub fn fit<T: Splitter>("""))
r('T2_fit_sort', (T, """        let (gradient_sum, hessian_sum, sort) = match sample_method {
            // We don't need to sort, if we are not sampling. This is because
            // the data is already sorted.
            SampleMethod::None => (fast_f64_sum(grad), fast_f64_sum(hess), false),
            _ => {""", """        let sort = !matches!(sample_method, SampleMethod::None);
        let (gradient_sum, hessian_sum) = match sample_method {
            // We don't need to sort, if we are not sampling. This is because
            // the data is already sorted.
            SampleMethod::None => (fast_f64_sum(grad), fast_f64_sum(hess)),
            _ => {"""), (T, "                (gs as f32, hs as f32, true)", "                (gs as f32, hs as f32)"))
r('T2_fit_foreach', (T, """                for n in new_nodes {
                    self.nodes.push(n.as_node(splitter.get_learning_rate()));
                    if !n.is_missing_leaf {
                        growable.add_node(n)
                    }
                }""", """                new_nodes.into_iter().for_each(|n| {
                    self.nodes.push(n.as_node(splitter.get_learning_rate()));
                    if !n.is_missing_leaf {
                        growable.add_node(n);
                    }
                });"""))
r('T2_fit_extend', (T, """                for n in new_nodes {
                    self.nodes.push(n.as_node(splitter.get_learning_rate()));
                    if !n.is_missing_leaf {
                        growable.add_node(n)
                    }
                }""", """                self.nodes.extend(
                    new_nodes
                        .iter()
                        .map(|n| n.as_node(splitter.get_learning_rate())),
                );
                for n in new_nodes {
                    if !n.is_missing_leaf {
                        growable.add_node(n);
                    }
                }"""))
r('T2_walk_helper', (T, """    fn predict_leaf(&self, data: &Matrix<f64>, row: usize, missing: &f64) -> &Node {
        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                return node;
            } else {
                node_idx = node.get_child_idx(data.get(row, node.split_feature), missing);
            }
        }
    }
""", """    fn walk<'a, F>(&'a self, value_of: F, missing: &f64) -> &'a Node
    where
        F: Fn(usize) -> f64,
    {
        let mut node = &self.nodes[0];
        while !node.is_leaf {
            let v = value_of(node.split_feature);
            node = &self.nodes[node.get_child_idx(&v, missing)];
        }
        node
    }

    fn predict_leaf(&self, data: &Matrix<f64>, row: usize, missing: &f64) -> &Node {
        self.walk(|feature| *data.get(row, feature), missing)
    }
"""), (T, """        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                return node.weight_value as f64;
            } else {
                node_idx = node.get_child_idx(&row[node.split_feature], missing);
            }
        }
""", """        f64::from(self.walk(|feature| row[feature], missing).weight_value)
"""))
r('T2_pc_while', (T, """        let mut node_idx = 0;
        let mut lo = current_logodds;
        loop {
            let node = &self.nodes[node_idx];
            let node_odds = odds(node.weight_value as f64 + current_logodds);
            if node.is_leaf {
                lo += node.weight_value as f64;
                break;
            }
            // Get change of weight given child's weight.
            let child_idx = node.get_child_idx(&row[node.split_feature], missing);
            let child_odds = odds(self.nodes[child_idx].weight_value as f64 + current_logodds);
            let delta = child_odds - node_odds;
            contribs[node.split_feature] += delta;
            node_idx = child_idx;
        }
        lo""", """        let logodds_at = |n: &Node| current_logodds + n.weight_value as f64;
        let mut node = &self.nodes[0];
        while !node.is_leaf {
            let child = &self.nodes[node.get_child_idx(&row[node.split_feature], missing)];
            contribs[node.split_feature] += odds(logodds_at(child)) - odds(logodds_at(node));
            node = child;
        }
        logodds_at(node)"""))
r('T2_pc_carry', (T, """        let mut node_idx = 0;
        let mut lo = current_logodds;
        loop {
            let node = &self.nodes[node_idx];
            let node_odds = odds(node.weight_value as f64 + current_logodds);
            if node.is_leaf {
                lo += node.weight_value as f64;
                break;
            }
            // Get change of weight given child's weight.
            let child_idx = node.get_child_idx(&row[node.split_feature], missing);
            let child_odds = odds(self.nodes[child_idx].weight_value as f64 + current_logodds);
            let delta = child_odds - node_odds;
            contribs[node.split_feature] += delta;
            node_idx = child_idx;
        }
        lo""", """        let mut node_idx = 0;
        let mut node_odds = odds(self.nodes[0].weight_value as f64 + current_logodds);
        while !self.nodes[node_idx].is_leaf {
            let node = &self.nodes[node_idx];
            let child_idx = node.get_child_idx(&row[node.split_feature], missing);
            let child_odds = odds(self.nodes[child_idx].weight_value as f64 + current_logodds);
            contribs[node.split_feature] += child_odds - node_odds;
            node_odds = child_odds;
            node_idx = child_idx;
        }
        current_logodds + self.nodes[node_idx].weight_value as f64"""))
r('T2_mid_nested', (T, """            if node.has_missing_branch() && child_idx == node.missing_node {
                node_idx = child_idx;
                continue;
            }
            let other_child = if child_idx == node.left_child {
                &self.nodes[node.right_child]
            } else {
                &self.nodes[node.left_child]
            };
            let mid = (child.weight_value * child.hessian_sum
                + other_child.weight_value * other_child.hessian_sum)
                / (child.hessian_sum + other_child.hessian_sum);
            let delta = child.weight_value - mid;
            contribs[node.split_feature] += delta as f64;
            node_idx = child_idx;""", """            let in_missing_branch = node.has_missing_branch() && child_idx == node.missing_node;
            if !in_missing_branch {
                let other_idx = if child_idx == node.left_child {
                    node.right_child
                } else {
                    node.left_child
                };
                let other_child = &self.nodes[other_idx];
                let total = child.hessian_sum + other_child.hessian_sum;
                let weighted = child.weight_value * child.hessian_sum
                    + other_child.weight_value * other_child.hessian_sum;
                contribs[node.split_feature] += (child.weight_value - weighted / total) as f64;
            }
            node_idx = child_idx;"""))
r('T2_mode_match', (T, """            let delta = if left_node.hessian_sum == right_node.hessian_sum {
                0.
            } else if left_node.hessian_sum > right_node.hessian_sum {
                child_weight - left_node.weight_value
            } else {
                child_weight - right_node.weight_value
            };
            contribs[node.split_feature] += delta as f64;""", """            if left_node.hessian_sum != right_node.hessian_sum {
                let mode = if left_node.hessian_sum > right_node.hessian_sum {
                    left_node
                } else {
                    right_node
                };
                contribs[node.split_feature] += (child_weight - mode.weight_value) as f64;
            }"""))
r('T2_contrib_split', (T, """        contribs[contribs.len() - 1] += weights[0];
        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                break;
            }
            // Get change of weight given child's weight.
            let child_idx = node.get_child_idx(&row[node.split_feature], missing);
            let node_weight = weights[node_idx];
            let child_weight = weights[child_idx];
            let delta = child_weight - node_weight;
            contribs[node.split_feature] += delta;
            node_idx = child_idx
        }""", """        let mut node_idx = 0;
        while !self.nodes[node_idx].is_leaf {
            let node = &self.nodes[node_idx];
            let child_idx = node.get_child_idx(&row[node.split_feature], missing);
            contribs[node.split_feature] += weights[child_idx] - weights[node_idx];
            node_idx = child_idx;
        }
        let bias = contribs.len() - 1;
        contribs[bias] += weights[0];"""))
r('T2_contrib_last', (T, """        // Add the bias term first...
        contribs[contribs.len() - 1] += self.nodes[0].weight_value as f64;""", """        if let Some(bias) = contribs.last_mut() {
            *bias += f64::from(self.nodes[0].weight_value);
        }"""))
r('T2_predict_single', (T, """        data.index
            .iter()
            .map(|i| self.predict_leaf(data, *i, missing).weight_value as f64)
            .collect()
    }

    fn predict_parallel""", """        let mut preds = Vec::with_capacity(data.index.len());
        for &row in data.index.iter() {
            preds.push(self.predict_leaf(data, row, missing).weight_value as f64);
        }
        preds
    }

    fn predict_parallel"""))
r('T2_avg_children', (T, """            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            w = left_node.hessian_sum as f64 * self.get_average_leaf_weights(node.left_child);
            w += right_node.hessian_sum as f64 * self.get_average_leaf_weights(node.right_child);
            // If this a tree with a missing branch.
            if node.has_missing_branch() {
                let missing_node = &self.nodes[node.missing_node];
                w += missing_node.hessian_sum as f64
                    * self.get_average_leaf_weights(node.missing_node);
            }
            w /= node.hessian_sum as f64;
            w""", """            let weighted =
                |c: usize| self.nodes[c].hessian_sum as f64 * self.get_average_leaf_weights(c);
            w = weighted(node.left_child) + weighted(node.right_child);
            if node.has_missing_branch() {
                w += weighted(node.missing_node);
            }
            w / node.hessian_sum as f64"""))
r('T2_avg_early', (T, """        let mut w = node.weight_value as f64;
        if node.is_leaf {
            w
        } else {
            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            w = left_node.hessian_sum as f64 * self.get_average_leaf_weights(node.left_child);""", """        if node.is_leaf {
            return node.weight_value as f64;
        }
        {
            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            let mut w = left_node.hessian_sum as f64 * self.get_average_leaf_weights(node.left_child);"""))
r('T2_stats_vec', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));
        self.calc""", """        let stat = calc_stat(node);
        let entry = stats.entry(node.split_feature).or_insert((0., 0));
        entry.0 += stat;
        entry.1 += 1;
        self.calc"""))
r('T2_stats_match', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));
        self.calc""", """        let stat = calc_stat(node);
        match stats.get_mut(&node.split_feature) {
            Some((v, c)) => {
                *v += stat;
                *c += 1;
            }
            None => {
                stats.insert(node.split_feature, (stat, 1));
            }
        }
        self.calc"""))
r('T2_leafidx', (T, """        data.index
            .par_iter()
            .map(|i| self.predict_leaf(data, *i, missing).num)
            .collect()""", """        data.index
            .par_iter()
            .map(|i| self.predict_leaf(data, *i, missing))
            .map(|leaf| leaf.num)
            .collect::<Vec<usize>>()"""))
r('T2_imp_fn', (T, "        self.get_node_stats(&|n: &Node| n.split_gain, stats);", "        fn split_gain(n: &Node) -> f32 {\n            n.split_gain\n        }\n        self.get_node_stats(&split_gain, stats);"))
# ------------------------------------------------------------------ grower / node
GR = 'src/grower.rs'
r('GR2_deque', (GR, "        self.push_front(node);", "        VecDeque::push_front(self, node)"), (GR, """        self.pop_back().expect("Grower should not be empty")""", """        match self.pop_back() {
            Some(node) => node,
            None => panic!("Grower should not be empty"),
        }"""))
