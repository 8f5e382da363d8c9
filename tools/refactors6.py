from refactors import r
G, T, N, S, B, U, H, D, M, O, SH, PD, SA, GR = ('src/%s.rs' % x for x in ('gradientbooster', 'tree', 'node', 'splitter', 'binning', 'utils', 'histogram', 'data', 'metric', 'objective', 'shapley', 'partial_dependence', 'sampler', 'grower'))

# -- model files
r('G6_save_maperr', (G, """        match fs::write(path, model) {
            Err(e) => Err(ForustError::UnableToWrite(e.to_string())),
            Ok(_) => Ok(()),
        }""", """        fs::write(path, model).map_err(|e| ForustError::UnableToWrite(e.to_string()))"""))
r('G6_save_iflet', (G, """        let model = self.json_dump()?;
        match fs::write(path, model) {
            Err(e) => Err(ForustError::UnableToWrite(e.to_string())),
            Ok(_) => Ok(()),
        }""", """        let text = self.json_dump()?;
        if let Err(e) = fs::write(path, text) {
            return Err(ForustError::UnableToWrite(e.to_string()));
        }
        Ok(())"""))
r('G6_dump_maperr', (G, """        match serde_json::to_string(self) {
            Ok(s) => Ok(s),
            Err(e) => Err(ForustError::UnableToWrite(e.to_string())),
        }""", """        serde_json::to_string(self).map_err(|e| ForustError::UnableToWrite(e.to_string()))"""))
r('G6_from_maperr', (G, """        let model = serde_json::from_str::<GradientBooster>(json_str);
        match model {
            Ok(m) => Ok(m),
            Err(e) => Err(ForustError::UnableToRead(e.to_string())),
        }""", """        let model: GradientBooster =
            serde_json::from_str(json_str).map_err(|e| ForustError::UnableToRead(e.to_string()))?;
        Ok(model)"""))
r('G6_load_maperr', (G, """        let json_str = match fs::read_to_string(path) {
            Ok(s) => Ok(s),
            Err(e) => Err(ForustError::UnableToRead(e.to_string())),
        }?;
        Self::from_json(&json_str)""", """        match fs::read_to_string(path) {
            Ok(s) => Self::from_json(&s),
            Err(e) => Err(ForustError::UnableToRead(e.to_string())),
        }"""))
r('G6_load_andthen', (G, """        let json_str = match fs::read_to_string(path) {
            Ok(s) => Ok(s),
            Err(e) => Err(ForustError::UnableToRead(e.to_string())),
        }?;
        Self::from_json(&json_str)""", """        fs::read_to_string(path)
            .map_err(|e| ForustError::UnableToRead(e.to_string()))
            .and_then(|s| Self::from_json(&s))"""))
r('G6_meta_map', (G, """        self.metadata.get(key).cloned()""", """        self.metadata.get(key).map(|v| v.to_string())"""))
r('G6_meta_match', (G, """        self.metadata.get(key).cloned()""", """        match self.metadata.get(key) {
            Some(v) => Some(v.clone()),
            None => None,
        }"""))
r('G6_unw', (G, """        let sample_weight = vec![1.0; data.rows];
        self.fit(data, y, &sample_weight, evaluation_data)""", """        let ones: Vec<f64> = std::iter::repeat(1.0).take(data.rows).collect();
        self.fit(data, y, &ones, evaluation_data)"""))
r('G6_parse_missing', (G, """    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))""", """    let value: Option<f64> = Deserialize::deserialize(d)?;
    Ok(value.unwrap_or(f64::NAN))"""))
r('G6_valid_order', (G, """        validate_positive_float_field!(self.subsample);
        validate_positive_float_field!(self.top_rate);
        validate_positive_float_field!(self.other_rate);
        validate_positive_float_field!(self.colsample_bytree);
        Ok(())""", """        validate_positive_float_field!(self.subsample);
        validate_positive_float_field!(self.top_rate);
        validate_positive_float_field!(self.other_rate);
        validate_positive_float_field!(self.colsample_bytree);
        let valid = ();
        Ok(valid)"""))

# -- histograms
r('H6_two_children', (H, """            gradient_sum: root_bin.gradient_sum
                - (first_child_bin.gradient_sum + second_child_bin.gradient_sum),
            hessian_sum: root_bin.hessian_sum
                - (first_child_bin.hessian_sum + second_child_bin.hessian_sum),
            cut_value: root_bin.cut_value,
        }""", """            cut_value: root_bin.cut_value,
            hessian_sum: root_bin.hessian_sum
                - (second_child_bin.hessian_sum + first_child_bin.hessian_sum),
            gradient_sum: root_bin.gradient_sum
                - (second_child_bin.gradient_sum + first_child_bin.gradient_sum),
        }"""))
r('H6_sorted_collect', (H, """            let mut n_grad = Vec::new();
            let mut n_hess = Vec::new();
            for i in index {
                let i_ = *i;
                n_grad.push(grad[i_]);
                n_hess.push(hess[i_]);
            }
            (n_grad, n_hess)""", """            index.iter().map(|i| (grad[*i], hess[*i])).unzip()"""))
r('H6_sorted_two', (H, """            let mut n_grad = Vec::new();
            let mut n_hess = Vec::new();
            for i in index {
                let i_ = *i;
                n_grad.push(grad[i_]);
                n_hess.push(hess[i_]);
            }
            (n_grad, n_hess)""", """            let pick = |v: &[f32]| index.iter().map(|&i| v[i]).collect::<Vec<f32>>();
            (pick(grad), pick(hess))"""))
r('H6_ends_loop', (H, """            col_index
                .iter()
                .scan(0_usize, |state, i| {
                    *state += cuts.get_col(*i).len();
                    Some(*state)
                })
                .collect()""", """            let mut total = 0;
            let mut ends = Vec::with_capacity(col_index.len());
            for col in col_index {
                total += cuts.get_col(*col).len();
                ends.push(total);
            }
            ends"""))
r('H6_hist_for', (H, """    index
        .iter()
        .zip(sorted_grad)
        .zip(sorted_hess)
        .for_each(|((i, g), h)| {
            if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                v.gradient_sum += f64::from(*g);
                v.hessian_sum += f64::from(*h);
            }
        });
    histogram.iter().map(|b| b.as_f32_bin()).collect()""", """    for ((&i, &g), &h) in index.iter().zip(sorted_grad.iter()).zip(sorted_hess.iter()) {
        let bin = usize::from(feature[i]);
        if bin < histogram.len() {
            let b = &mut histogram[bin];
            b.gradient_sum += g as f64;
            b.hessian_sum += h as f64;
        }
    }
    histogram.iter().map(Bin::as_f32_bin).collect()"""))
r('H6_hist_init', (H, """    histogram.push(Bin::new_f64(f64::NAN));""", """    let missing_bin = Bin::new_f64(f64::NAN);
    histogram.push(missing_bin);"""), (H, """    histogram.extend(cuts[..(cuts.len() - 1)].iter().map(|c| Bin::new_f64(*c)));""", """    for cut in &cuts[..cuts.len() - 1] {
        histogram.push(Bin::new_f64(*cut));
    }"""))
r('H6_closure', (H, """        let histograms = if parallel {
            col_index
                .par_iter()
                .flat_map(|col| {
                    create_feature_histogram(
                        data.get_col(*col),
                        cuts.get_col(*col),
                        &sorted_grad,
                        &sorted_hess,
                        index,
                    )
                })
                .collect::<Vec<Bin<f32>>>()
        } else {
            col_index
                .iter()
                .flat_map(|col| {
                    create_feature_histogram(
                        data.get_col(*col),
                        cuts.get_col(*col),
                        &sorted_grad,
                        &sorted_hess,
                        index,
                    )
                })
                .collect::<Vec<Bin<f32>>>()
        };""", """        let one = |col: &usize| {
            create_feature_histogram(
                data.get_col(*col),
                cuts.get_col(*col),
                &sorted_grad,
                &sorted_hess,
                index,
            )
        };
        let histograms: Vec<Bin<f32>> = if parallel {
            col_index.par_iter().flat_map(one).collect()
        } else {
            col_index.iter().flat_map(one).collect()
        };"""))

# -- shapley
r('SH6_elem', (SH, """    fn get_element(&mut self, i: usize) -> &PathElement {
        if i == self.paths.len() {
            self.paths.push(PathElement::default());
            &self.paths[i]
        } else {
            // This will panic for us, if we are out of bounds.
            &self.paths[i]
        }
    }""", """    fn get_element(&mut self, i: usize) -> &PathElement {
        if i == self.paths.len() {
            self.paths.push(PathElement::default());
        }
        &self.paths[i]
    }"""))
r('SH6_elem_mut', (SH, """        if i == self.paths.len() {
            self.paths.push(PathElement::default());
            &mut self.paths[i]
        } else {
            // This will panic for us, if we are out of bounds.
            &mut self.paths[i]
        }""", """        if self.paths.len() == i {
            let empty = PathElement::default();
            self.paths.push(empty);
        }
        &mut self.paths[i]"""))
r('SH6_extend_local', (SH, """    unique_path.get_element_mut(unique_depth).feature_index = feature_index;
    unique_path.get_element_mut(unique_depth).zero_fraction = zero_fraction;
    unique_path.get_element_mut(unique_depth).one_fraction = one_fraction;
    unique_path.get_element_mut(unique_depth).pweight = if unique_depth == 0 { 1.0 } else { 0.0 };""", """    let last = unique_path.get_element_mut(unique_depth);
    last.feature_index = feature_index;
    last.zero_fraction = zero_fraction;
    last.one_fraction = one_fraction;
    last.pweight = if unique_depth == 0 { 1.0 } else { 0.0 };"""))
r('SH6_extend_struct', (SH, """    unique_path.get_element_mut(unique_depth).feature_index = feature_index;
    unique_path.get_element_mut(unique_depth).zero_fraction = zero_fraction;
    unique_path.get_element_mut(unique_depth).one_fraction = one_fraction;
    unique_path.get_element_mut(unique_depth).pweight = if unique_depth == 0 { 1.0 } else { 0.0 };""", """    let pweight = if unique_depth == 0 { 1.0 } else { 0.0 };
    *unique_path.get_element_mut(unique_depth) = PathElement {
        feature_index,
        zero_fraction,
        one_fraction,
        pweight,
    };"""))
r('SH6_extend_pw', (SH, """    for i in (0..unique_depth).rev() {
        unique_path.get_element_mut(i + 1).pweight +=
            (one_fraction * unique_path.get_element(i).pweight * (i + 1) as f32)
                / (unique_depth + 1) as f32;
        unique_path.get_element_mut(i).pweight =
            (zero_fraction * unique_path.get_element(i).pweight * (unique_depth - i) as f32)
                / (unique_depth + 1) as f32;
    }""", """    let size = (unique_depth + 1) as f32;
    for i in (0..unique_depth).rev() {
        let pweight = unique_path.get_element(i).pweight;
        unique_path.get_element_mut(i + 1).pweight +=
            (one_fraction * pweight * (i + 1) as f32) / size;
        unique_path.get_element_mut(i).pweight =
            (zero_fraction * pweight * (unique_depth - i) as f32) / size;
    }"""))
r('SH6_unwind_elem', (SH, """    let one_fraction = unique_path.get_element(path_index).one_fraction;
    let zero_fraction = unique_path.get_element(path_index).zero_fraction;
    let mut next_one_portion = unique_path.get_element(unique_depth).pweight;
    for i in (0..unique_depth).rev() {
        if one_fraction != 0. {""", """    let PathElement { one_fraction, zero_fraction, .. } = *unique_path.get_element(path_index);
    let mut next_one_portion = unique_path.get_element(unique_depth).pweight;
    for i in (0..unique_depth).rev() {
        if one_fraction != 0. {"""))
r('SH6_unwind_shift', (SH, """        unique_path.get_element_mut(i).feature_index = unique_path.get_element(i + 1).feature_index;
        unique_path.get_element_mut(i).zero_fraction = unique_path.get_element(i + 1).zero_fraction;
        unique_path.get_element_mut(i).one_fraction = unique_path.get_element(i + 1).one_fraction;""", """        let next = *unique_path.get_element(i + 1);
        let current = unique_path.get_element_mut(i);
        current.feature_index = next.feature_index;
        current.zero_fraction = next.zero_fraction;
        current.one_fraction = next.one_fraction;"""))
r('SH6_sum_const', (SH, """        if one_fraction != 0.0 {
            let tmp =
                (next_one_portion * (unique_depth + 1) as f32) / ((i + 1) as f32 * one_fraction);
            total += tmp;
            next_one_portion = unique_path.get_element(i).pweight
                - tmp * zero_fraction * ((unique_depth - i) as f32 / (unique_depth + 1) as f32);
        } else if zero_fraction""", """        let pweight = unique_path.get_element(i).pweight;
        if one_fraction != 0.0 {
            let tmp =
                (next_one_portion * (unique_depth + 1) as f32) / ((i + 1) as f32 * one_fraction);
            next_one_portion = pweight
                - tmp * zero_fraction * ((unique_depth - i) as f32 / (unique_depth + 1) as f32);
            total += tmp;
        } else if zero_fraction"""))
r('SH6_hot_tuple', (SH, """    if node.has_missing_branch() {
        // we know there will be 3 children if there is a missing branch.
        if next_node_idx == node.right_child {
            vec![node.right_child, node.left_child, node.missing_node]
        } else if next_node_idx == node.left_child {
            vec![node.left_child, node.right_child, node.missing_node]
        } else {
            vec![node.missing_node, node.left_child, node.right_child]
        }
    } else if next_node_idx == node.right_child {
        vec![node.right_child, node.left_child]
    } else {
        vec![node.left_child, node.right_child]
    }""", """    let (left, right) = (node.left_child, node.right_child);
    match (node.has_missing_branch(), next_node_idx) {
        (true, n) if n == right => vec![right, left, node.missing_node],
        (true, n) if n == left => vec![left, right, node.missing_node],
        (true, _) => vec![node.missing_node, left, right],
        (false, n) if n == right => vec![right, left],
        (false, _) => vec![left, right],
    }"""))
r('SH6_path_pos', (SH, """        let mut path_index = 0;
        while path_index <= unique_depth {
            if unique_path.get_element(path_index).feature_index == node.split_feature {
                break;
            }
            path_index += 1;
        }
""", """        let mut path_index = 0;
        while path_index <= unique_depth
            && unique_path.get_element(path_index).feature_index != node.split_feature
        {
            path_index += 1;
        }
"""))
r('SH6_path_found', (SH, """        if path_index != (unique_depth + 1) {
            incoming_zero_fraction = unique_path.get_element(path_index).zero_fraction;
            incoming_one_fraction = unique_path.get_element(path_index).one_fraction;
            unwind_path""", """        if path_index <= unique_depth {
            let seen = *unique_path.get_element(path_index);
            incoming_zero_fraction = seen.zero_fraction;
            incoming_one_fraction = seen.one_fraction;
            unwind_path"""))
r('SH6_children_for', (SH, """        for (i, n_idx) in hot_cold_children.into_iter().enumerate() {
            let zero_fraction =
                (tree.nodes[n_idx].hessian_sum / node.hessian_sum) * incoming_zero_fraction;
            let onf = if i == 0 { incoming_one_fraction } else { 0. };""", """        for i in 0..hot_cold_children.len() {
            let n_idx = hot_cold_children[i];
            let share = tree.nodes[n_idx].hessian_sum / node.hessian_sum;
            let zero_fraction = share * incoming_zero_fraction;
            let onf = if i > 0 { 0. } else { incoming_one_fraction };"""))
r('SH6_row_last', (SH, """    contribs[contribs.len() - 1] += tree.get_average_leaf_weights(0);""", """    let bias = contribs.len() - 1;
    let average = tree.get_average_leaf_weights(0);
    contribs[bias] += average;"""))

# -- partial dependence
r('PD6_missing_once', (PD, """        let missing_cover = if n.has_missing_branch() {
            get_node_cover(tree, n.missing_node)
        } else {
            0.0
        };
        let total_cover = left_cover + right_cover + missing_cover;
        let missing_pd = if n.has_missing_branch() {
            tree_partial_dependence(
                tree,
                n.missing_node,
                feature,
                value,
                proportion * (missing_cover / total_cover),
                missing,
            )
        } else {
            0.
        };""", """        let has_missing = n.has_missing_branch();
        let missing_cover = if has_missing { get_node_cover(tree, n.missing_node) } else { 0.0 };
        let total_cover = left_cover + right_cover + missing_cover;
        let mut missing_pd = 0.;
        if has_missing {
            let share = missing_cover / total_cover;
            missing_pd = tree_partial_dependence(
                tree,
                n.missing_node,
                feature,
                value,
                proportion * share,
                missing,
            );
        }"""))
r('PD6_closure', (PD, """        tree_partial_dependence(
            tree,
            n.left_child,
            feature,
            value,
            proportion * (left_cover / total_cover),
            missing,
        ) + tree_partial_dependence(
            tree,
            n.right_child,
            feature,
            value,
            proportion * (right_cover / total_cover),
            missing,
        ) + missing_pd""", """        let part = |child: usize, cover: f32| {
            tree_partial_dependence(tree, child, feature, value, proportion * (cover / total_cover), missing)
        };
        part(n.left_child, left_cover) + part(n.right_child, right_cover) + missing_pd"""))
r('PD6_match', (PD, """        let child = if is_missing(&value, missing) {
            n.missing_node
        } else if value < n.split_value {
            n.left_child
        } else {
            n.right_child
        };
        tree_partial_dependence(tree, child, feature, value, proportion, missing)""", """        let child = n.get_child_idx(&value, missing);
        tree_partial_dependence(tree, child, feature, value, proportion, missing)"""))
r('PD6_early', (PD, """    if n.is_leaf {
        f64::from(proportion * n.weight_value)
    } else if n.split_feature == feature {""", """    if n.is_leaf {
        return (proportion * n.weight_value) as f64;
    }
    if feature == n.split_feature {"""))

# -- trees
r('T6_avg_early', (T, """        let mut w = node.weight_value as f64;
        if node.is_leaf {
            w
        } else {
            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            w = left_node.hessian_sum as f64 * self.get_average_leaf_weights(node.left_child);
            w += right_node.hessian_sum as f64 * self.get_average_leaf_weights(node.right_child);
            // If this a tree with a missing branch.
            if node.has_missing_branch() {
                let missing_node = &self.nodes[node.missing_node];
                w += missing_node.hessian_sum as f64
                    * self.get_average_leaf_weights(node.missing_node);
            }
            w /= node.hessian_sum as f64;
            w
        }""", """        if node.is_leaf {
            return f64::from(node.weight_value);
        }
        let share = |child: usize| {
            self.nodes[child].hessian_sum as f64 * self.get_average_leaf_weights(child)
        };
        let mut total = share(node.left_child) + share(node.right_child);
        if node.has_missing_branch() {
            total += share(node.missing_node);
        }
        total / node.hessian_sum as f64"""))
r('T6_dist_else', (T, """        let mut w = node.weight_value as f64;
        if !node.is_leaf {
            let left_node = &self.nodes[node.left_child];
            let right_node = &self.nodes[node.right_child];
            w = left_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.left_child, weights);
            w += right_node.hessian_sum as f64
                * self.distribute_node_leaf_weights(node.right_child, weights);
            // If this a tree with a missing branch.
            if node.has_missing_branch() {
                let missing_node = &self.nodes[node.missing_node];
                w += missing_node.hessian_sum as f64
                    * self.distribute_node_leaf_weights(node.missing_node, weights);
            }
            w /= node.hessian_sum as f64;
        }
        weights[i] = w;
        w""", """        let w = if node.is_leaf {
            node.weight_value as f64
        } else {
            let left_weight = self.distribute_node_leaf_weights(node.left_child, weights);
            let right_weight = self.distribute_node_leaf_weights(node.right_child, weights);
            let mut sum = self.nodes[node.left_child].hessian_sum as f64 * left_weight
                + self.nodes[node.right_child].hessian_sum as f64 * right_weight;
            if node.has_missing_branch() {
                let missing_weight = self.distribute_node_leaf_weights(node.missing_node, weights);
                sum += self.nodes[node.missing_node].hessian_sum as f64 * missing_weight;
            }
            sum / node.hessian_sum as f64
        };
        weights[i] = w;
        w"""))
r('T6_dist_top', (T, """        let mut weights = vec![0.; self.nodes.len()];
        self.distribute_node_leaf_weights(0, &mut weights);
        weights""", """        let n = self.nodes.len();
        let mut weights: Vec<f64> = vec![0.0; n];
        let _ = self.distribute_node_leaf_weights(0, &mut weights);
        weights"""))
r('T6_stats_insert', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        let stat = calc_stat(node);
        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += stat;
                *c += 1;
            })
            .or_insert((stat, 1));"""))
r('T6_stats_entry', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        let stat = calc_stat(node);
        let entry = stats.entry(node.split_feature).or_insert((0.0, 0));
        entry.0 += stat;
        entry.1 += 1;"""))
r('T6_stats_getmut', (T, """        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));""", """        match stats.get_mut(&node.split_feature) {
            Some((v, c)) => {
                *v += calc_stat(node);
                *c += 1;
            }
            None => {
                stats.insert(node.split_feature, (calc_stat(node), 1));
            }
        }"""))
r('T6_stats_if', (T, """        if node.is_leaf {
            return;
        }
        stats
            .entry(node.split_feature)
            .and_modify(|(v, c)| {
                *v += calc_stat(node);
                *c += 1;
            })
            .or_insert((calc_stat(node), 1));
        self.calc_feature_node_stats(calc_stat, &self.nodes[node.left_child], stats);
        self.calc_feature_node_stats(calc_stat, &self.nodes[node.right_child], stats);
        if node.has_missing_branch() {
            self.calc_feature_node_stats(calc_stat, &self.nodes[node.missing_node], stats);
        }""", """        if !node.is_leaf {
            stats
                .entry(node.split_feature)
                .and_modify(|(v, c)| {
                    *v += calc_stat(node);
                    *c += 1;
                })
                .or_insert((calc_stat(node), 1));
            let nodes = &self.nodes;
            self.calc_feature_node_stats(calc_stat, &nodes[node.left_child], stats);
            self.calc_feature_node_stats(calc_stat, &nodes[node.right_child], stats);
            if node.has_missing_branch() {
                self.calc_feature_node_stats(calc_stat, &nodes[node.missing_node], stats);
            }
        }"""))
r('T6_stats_direct', (T, """        self.get_node_stats(&|n: &Node| n.hessian_sum, stats);""", """        let cover = |n: &Node| n.hessian_sum;
        self.calc_feature_node_stats(&cover, &self.nodes[0], stats);"""))
r('T6_leaf_while', (T, """        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                return node;
            } else {
                node_idx = node.get_child_idx(data.get(row, node.split_feature), missing);
            }
        }""", """        let mut node = &self.nodes[0];
        while !node.is_leaf {
            let value = data.get(row, node.split_feature);
            node = &self.nodes[node.get_child_idx(value, missing)];
        }
        node"""))
r('T6_row_while', (T, """        let mut node_idx = 0;
        loop {
            let node = &self.nodes[node_idx];
            if node.is_leaf {
                return node.weight_value as f64;
            } else {
                node_idx = node.get_child_idx(&row[node.split_feature], missing);
            }
        }""", """        let mut node_idx = 0;
        while !self.nodes[node_idx].is_leaf {
            let node = &self.nodes[node_idx];
            node_idx = node.get_child_idx(&row[node.split_feature], missing);
        }
        f64::from(self.nodes[node_idx].weight_value)"""))
r('T6_pred_closure', (T, """        if parallel {
            self.predict_parallel(data, missing)
        } else {
            self.predict_single_threaded(data, missing)
        }""", """        match parallel {
            true => self.predict_parallel(data, missing),
            false => self.predict_single_threaded(data, missing),
        }"""))
r('T6_pred_inline', (T, """        if parallel {
            self.predict_parallel(data, missing)
        } else {
            self.predict_single_threaded(data, missing)
        }""", """        let leaf = |i: &usize| self.predict_leaf(data, *i, missing).weight_value as f64;
        if parallel {
            data.index.par_iter().map(leaf).collect()
        } else {
            data.index.iter().map(leaf).collect()
        }"""))
r('T6_branch_sel', (T, """            let other_child = if child_idx == node.left_child {
                &self.nodes[node.right_child]
            } else {
                &self.nodes[node.left_child]
            };
            let delta = self.nodes[child_idx].weight_value - other_child.weight_value;""", """            let other_idx = if child_idx == node.left_child { node.right_child } else { node.left_child };
            let delta = self.nodes[child_idx].weight_value - self.nodes[other_idx].weight_value;"""))
r('T6_branch_if', (T, """            if node.has_missing_branch() && child_idx == node.missing_node {
                node_idx = child_idx;
                continue;
            }
            let other_child = if child_idx == node.left_child {
                &self.nodes[node.right_child]
            } else {
                &self.nodes[node.left_child]
            };
            let delta = self.nodes[child_idx].weight_value - other_child.weight_value;
            contribs[node.split_feature] += delta as f64;
            node_idx = child_idx;""", """            let went_missing = node.has_missing_branch() && child_idx == node.missing_node;
            if !went_missing {
                let other_child = if child_idx == node.left_child {
                    &self.nodes[node.right_child]
                } else {
                    &self.nodes[node.left_child]
                };
                let delta = self.nodes[child_idx].weight_value - other_child.weight_value;
                contribs[node.split_feature] += delta as f64;
            }
            node_idx = child_idx;"""))
r('T6_mid_helper', (T, """            let mid = (child.weight_value * child.hessian_sum
                + other_child.weight_value * other_child.hessian_sum)
                / (child.hessian_sum + other_child.hessian_sum);
            let delta = child.weight_value - mid;""", """            let total = child.hessian_sum + other_child.hessian_sum;
            let weighted = child.weight_value * child.hessian_sum
                + other_child.weight_value * other_child.hessian_sum;
            let delta = child.weight_value - weighted / total;"""))
r('T6_mode_helper', (T, """            let delta = if left_node.hessian_sum == right_node.hessian_sum {
                0.
            } else if left_node.hessian_sum > right_node.hessian_sum {
                child_weight - left_node.weight_value
            } else {
                child_weight - right_node.weight_value
            };
            contribs[node.split_feature] += delta as f64;""", """            if left_node.hessian_sum != right_node.hessian_sum {
                let mode = if left_node.hessian_sum > right_node.hessian_sum {
                    left_node
                } else {
                    right_node
                };
                contribs[node.split_feature] += (child_weight - mode.weight_value) as f64;
            }"""))
r('T6_weight_carry', (T, """            let node_weight = self.nodes[node_idx].weight_value as f64;
            let child_weight = self.nodes[child_idx].weight_value as f64;
            let delta = child_weight - node_weight;
            contribs[node.split_feature] += delta;
            node_idx = child_idx
        }""", """            let child = &self.nodes[child_idx];
            contribs[node.split_feature] += f64::from(child.weight_value) - f64::from(node.weight_value);
            node_idx = child_idx
        }"""))
r('T6_cw_for', (T, """            .for_each(|(row, contribs)| {
                self.predict_contributions_row_weight(&data.get_row(*row), contribs, missing)
            })""", """            .for_each(|(&row, row_contribs)| {
                let values = data.get_row(row);
                self.predict_contributions_row_weight(&values, row_contribs, missing);
            });"""))
r('T6_vpd', (T, """        tree_partial_dependence(self, 0, feature, value, 1.0, missing)""", """        let root = 0;
        let whole = 1.0;
        tree_partial_dependence(self, root, feature, value, whole, missing)"""))
