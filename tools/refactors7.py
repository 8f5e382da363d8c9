from refactors import r
G, T, N, S, B, U, H, D, M, O, SH, PD, SA, GR = ('src/%s.rs' % x for x in ('gradientbooster', 'tree', 'node', 'splitter', 'binning', 'utils', 'histogram', 'data', 'metric', 'objective', 'shapley', 'partial_dependence', 'sampler', 'grower'))

# -- data
r('D7_item_index', (D, """        let mut idx = self.stride2 * i;
        idx += j * self.stride1;
        idx""", """        i * self.stride2 + j * self.stride1"""))
r('D7_col_slice', (D, """        let i = self.item_index(start_row, col);
        let j = self.item_index(end_row, col);
        &self.data[i..j]""", """        let offset = col * self.stride1;
        let (start, end) = (offset + self.stride2 * start_row, offset + self.stride2 * end_row);
        &self.data[start..end]"""))
r('D7_col', (D, """        self.get_col_slice(col, 0, self.rows)""", """        let start = self.item_index(0, col);
        let stop = self.item_index(self.rows, col);
        &self.data[start..stop]"""))
r('D7_append', (D, """        assert!(items.len() % self.cols == 0);
        let new_rows = items.len() / self.cols;
        self.rows += new_rows;
        self.data.extend(items);""", """        let n_items = items.len();
        assert_eq!(n_items % self.cols, 0);
        self.data.extend(items);
        self.rows += n_items / self.cols;"""))
r('D7_append_loop', (D, """        self.rows += new_rows;
        self.data.extend(items);""", """        for item in items {
            self.data.push(item);
        }
        self.rows = self.rows + new_rows;"""))
r('D7_index_loop', (D, """        Matrix {
            data,
            index: (0..rows).collect(),
            rows,""", """        let mut index = Vec::with_capacity(rows);
        for row in 0..rows {
            index.push(row);
        }
        Matrix {
            data,
            index,
            rows,"""))
r('D7_fmt_push', (D, """                val.push_str(self.get(i, j).to_string().as_str());
                if j == (self.cols - 1) {
                    val.push('\\n');
                } else {
                    val.push(' ');
                }""", """                let item = self.get(i, j).to_string();
                val.push_str(&item);
                let is_last = j == self.cols - 1;
                val.push(if is_last { '\\n' } else { ' ' });"""))
# -- node
r('N7_eq', (N, """        self.gain_value == other.gain_value""", """        other.gain_value == self.gain_value"""))
r('N7_from_new', (N, """        SplittableNode {
            num,
            histograms,
            weight_value: node_info.weight,
            gain_value: node_info.gain,
            gradient_sum: node_info.grad,
            hessian_sum: node_info.cover,
            depth,
            split_value: f64::ZERO,
            split_feature: 0,
            split_gain: f32::ZERO,
            missing_node: 0,
            left_child: 0,
            right_child: 0,
            start_idx,
            stop_idx,
            lower_bound: node_info.bounds.0,
            upper_bound: node_info.bounds.1,
            is_leaf: true,
            is_missing_leaf: false,
        }""", """        let (lower_bound, upper_bound) = node_info.bounds;
        SplittableNode::new(
            num,
            histograms,
            node_info.weight,
            node_info.gain,
            node_info.grad,
            node_info.cover,
            depth,
            start_idx,
            stop_idx,
            lower_bound,
            upper_bound,
        )"""))
r('N7_update_children', (N, """        self.left_child = left_child;
        self.right_child = right_child;
        self.split_feature = split_info.split_feature;
        self.split_gain = self.get_split_gain(
            &split_info.left_node,
            &split_info.right_node,
            &split_info.missing_node,
            0.0,
        );
        self.split_value = split_info.split_value;
        self.missing_node = missing_child;
        self.is_leaf = false;""", """        let split_gain = self.get_split_gain(
            &split_info.left_node,
            &split_info.right_node,
            &split_info.missing_node,
            0.0,
        );
        self.is_leaf = false;
        self.missing_node = missing_child;
        self.left_child = left_child;
        self.right_child = right_child;
        self.split_feature = split_info.split_feature;
        self.split_value = split_info.split_value;
        self.split_gain = split_gain;"""))
r('N7_gain_iflet', (N, """        let missing_split_gain = match &missing_node_info {
            MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) => ni.gain,
            _ => 0.,
        };
        left_node_info.gain + right_node_info.gain + missing_split_gain - self.gain_value - gamma""", """        let mut children_gain = left_node_info.gain + right_node_info.gain;
        if let MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) = missing_node_info {
            children_gain += ni.gain;
        }
        children_gain - self.gain_value - gamma"""))
r('N7_as_node', (N, """        Node {
            num: self.num,
            weight_value: self.weight_value * learning_rate,""", """        let weight_value = learning_rate * self.weight_value;
        Node {
            num: self.num,
            weight_value,"""))
r('N7_fmt_early', (N, """        if self.is_leaf {
            write!(
                f,
                "{}:leaf={},cover={}",
                self.num, self.weight_value, self.hessian_sum
            )
        } else {
            write!(
                f,
                "{}:[{} < {}] yes={},no={},missing={},gain={},cover={}",
                self.num,
                self.split_feature,
                self.split_value,
                self.left_child,
                self.right_child,
                self.missing_node,
                self.split_gain,
                self.hessian_sum
            )
        }""", """        if !self.is_leaf {
            return write!(
                f,
                "{}:[{} < {}] yes={},no={},missing={},gain={},cover={}",
                self.num,
                self.split_feature,
                self.split_value,
                self.left_child,
                self.right_child,
                self.missing_node,
                self.split_gain,
                self.hessian_sum
            );
        }
        write!(
            f,
            "{}:leaf={},cover={}",
            self.num, self.weight_value, self.hessian_sum
        )"""))
r('N7_fmt_inline', (N, """            write!(
                f,
                "{}:leaf={},cover={}",
                self.num, self.weight_value, self.hessian_sum
            )""", """            let (num, weight, cover) = (self.num, self.weight_value, self.hessian_sum);
            write!(f, "{num}:leaf={weight},cover={cover}")"""))
r('N7_child_match', (N, """        if is_missing(v, missing) {
            self.missing_node
        } else if v < &self.split_value {
            self.left_child
        } else {
            self.right_child
        }""", """        if is_missing(v, missing) {
            return self.missing_node;
        }
        match *v < self.split_value {
            true => self.left_child,
            false => self.right_child,
        }"""))
r('N7_missing_branch', (N, """        (self.missing_node != self.right_child) && (self.missing_node != self.left_child)""", """        !(self.missing_node == self.left_child || self.missing_node == self.right_child)"""))
# -- utils
r('U7_items_join', (U, """    let mut s = String::new();
    for i in items {
        s.push_str(i);
        s.push_str(&String::from(", "));
    }
    s""", """    let mut s = String::new();
    for item in items.iter() {
        s += item;
        s += ", ";
    }
    s"""))
r('U7_validate_msg', (U, """    let mut msg = String::new();
    if value.is_nan() || value < min || max < value {
        msg.push_str(&value.to_string());
        let ex_msg""", """    if value.is_nan() || value < min || value > max {
        let ex_msg"""))
r('U7_validate_ok', (U, """    let mut msg = String::new();
    if value.is_nan() || value < min || max < value {
        msg.push_str(&value.to_string());
        let ex_msg = format!("real value within rang {} and {}", min, max);
        Err(ForustError::InvalidParameter(
            parameter.to_string(),
            ex_msg,
            value.to_string(),
        ))
    } else {
        Ok(())
    }""", """    let valid = value >= min && value <= max;
    if valid {
        return Ok(());
    }
    Err(ForustError::InvalidParameter(
        parameter.to_string(),
        format!("real value within rang {} and {}", min, max),
        value.to_string(),
    ))"""))
r('U7_notnan_loop', (U, """    if v.iter().any(|i| i.is_nan()) {
        Err(ForustError::MissingValuesFound(name))
    } else {
        Ok(())
    }""", """    for value in v {
        if value.is_nan() {
            return Err(ForustError::MissingValuesFound(name));
        }
    }
    Ok(())"""))
r('U7_positive_all', (U, """    if v.iter().any(|i| i < &0.) {
        Err(ForustError::NegativeValuesFound(name))
    } else {
        Ok(())
    }""", """    let has_negative = v.iter().any(|value| *value < 0.0);
    match has_negative {
        true => Err(ForustError::NegativeValuesFound(name)),
        false => Ok(()),
    }"""))
r('U7_posnotnan', (U, """    let remainder = v
        .iter()
        .filter(|i| i.is_nan() || i < &&0.)
        .copied()
        .collect::<Vec<f64>>();
    validate_positive_vec(&remainder, name.clone())?;
    validate_not_nan_vec(&remainder, name)?;
    Ok(())""", """    validate_positive_vec(v, name.clone())?;
    validate_not_nan_vec(v, name)"""))
r('U7_constrained_clamp', (U, """    if weight > upper_bound {
        upper_bound
    } else if weight < lower_bound {
        lower_bound
    } else {
        weight
    }""", """    if weight > upper_bound {
        return upper_bound;
    }
    if weight < lower_bound {
        return lower_bound;
    }
    weight"""))
r('U7_between', (U, """    if i > j {
        (i >= v) && (v >= j)
    } else {
        (i <= v) && (v <= j)
    }""", """    let (low, high) = if i > j { (j, i) } else { (i, j) };
    low <= v && v <= high"""))
r('U7_bound_flat', (U, """    if between(left_weight, right_weight, parent_weight) {
        (left_weight, right_weight)
    } else {
""", """    if between(left_weight, right_weight, parent_weight) {
        return (left_weight, right_weight);
    }
    {
"""))
r('U7_odds', (U, """    1. / (1. + (-v).exp())""", """    let e = (-v).exp();
    (1. + e).recip()"""))
r('U7_gain', (U, """    (gradient_sum * gradient_sum) / (hessian_sum + l2)""", """    let denominator = hessian_sum + *l2;
    gradient_sum.powi(2) / denominator"""))
r('U7_ggw', (U, """    -(2.0 * gradient_sum * weight + (hessian_sum + l2) * (weight * weight))""", """    let linear = 2.0 * gradient_sum * weight;
    let quadratic = (hessian_sum + l2) * weight * weight;
    -(linear + quadratic)"""))
r('U7_cull_guard', (U, """    match constraint {
        None | Some(Constraint::Unconstrained) => gain,
        Some(Constraint::Negative) => {
            if left_weight <= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
        Some(Constraint::Positive) => {
            if left_weight >= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
    }""", """    match constraint {
        Some(Constraint::Negative) if left_weight <= right_weight => f32::NEG_INFINITY,
        Some(Constraint::Positive) if left_weight >= right_weight => f32::NEG_INFINITY,
        _ => gain,
    }"""))
r('U7_cull_violates', (U, """    match constraint {
        None | Some(Constraint::Unconstrained) => gain,
        Some(Constraint::Negative) => {
            if left_weight <= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
        Some(Constraint::Positive) => {
            if left_weight >= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
    }""", """    let violates = match constraint {
        None | Some(Constraint::Unconstrained) => false,
        Some(Constraint::Negative) => left_weight <= right_weight,
        Some(Constraint::Positive) => left_weight >= right_weight,
    };
    if violates {
        f32::NEG_INFINITY
    } else {
        gain
    }"""))
r('U7_l1', (U, """    if l1 == &0. {
        *w
    } else if w > l1 {
        w - l1
    } else if w < &-l1 {
        w + l1
    } else {
        0.0
    }""", """    if *l1 == 0. {
        return *w;
    }
    if *w > *l1 {
        return *w - *l1;
    }
    if *w < -*l1 {
        return *w + *l1;
    }
    0.0"""))
r('U7_weight', (U, """    let w = -(l1_regularization(&gradient_sum, l1) / (hessian_sum + l2));
    if (max_delta_step != &0.) && (&w.abs() > max_delta_step) {
        return max_delta_step.copysign(w);
    }
    w""", """    let numerator = l1_regularization(&gradient_sum, l1);
    let w = -numerator / (hessian_sum + l2);
    let capped = *max_delta_step != 0. && w.abs() > *max_delta_step;
    if capped {
        max_delta_step.copysign(w)
    } else {
        w
    }"""))
r('U7_sum_for', (U, """    let sum = chunks.fold([T::ZERO; LANES], |mut acc, chunk| {
        let chunk: [T; LANES] = chunk.try_into().unwrap();
        for i in 0..LANES {
            acc[i] += chunk[i];
        }
        acc
    });
""", """    let mut sum = [T::ZERO; LANES];
    for chunk in chunks {
        for (s, v) in sum.iter_mut().zip(chunk) {
            *s += *v;
        }
    }
"""))
r('U7_sum_reduced', (U, """    let mut reduced = T::ZERO;
    for s in sum.iter().take(LANES) {
        reduced += *s;
    }
    reduced + remainder""", """    let reduced = sum.iter().fold(T::ZERO, |acc, s| acc + *s);
    reduced + remainder"""))
r('U7_f64sum_map', (U, """    let remainder: f64 = remainder
        .iter()
        .fold(f64::ZERO, |acc, b| acc + f64::from(*b));
""", """    let remainder: f64 = remainder.iter().map(|b| f64::from(*b)).sum();
"""))
r('U7_pct_iter', (U, """    for i in idx.iter() {
        if current_value != v[*i] {
            current_value = v[*i];
        }
        cuml_pct += sample_weight[*i] / total_values;""", """    for &i in &idx {
        if current_value != v[i] {
            current_value = v[i];
        }
        let share = sample_weight[i] / total_values;
        cuml_pct += share;"""))
r('U7_pct_last', (U, """            if let Some(i_) = idx.last() {
                p.push(v[*i_]);
                break;
            }""", """            let last = idx[idx.len() - 1];
            p.push(v[last]);
            break;"""))
r('U7_pct_iflet', (U, """                match pcts.pop_front() {
                    Some(p_) => current_pct = *p_,
                    None => return p,
                }""", """                if let Some(next) = pcts.pop_front() {
                    current_pct = *next;
                } else {
                    return p;
                }"""))
r('U7_mapbin_guard', (U, """    let mut low = 0;
    let mut high = x.len();
    while low != high {
        let mid = (low + high) / 2;
        // This will always be false for NaNs.
        // This it will force us to the bottom,
        // and thus Zero.
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()""", """    let (mut low, mut high) = (0, x.len());
    while low < high {
        let mid = low + (high - low) / 2;
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    match u16::try_from(low) {
        Ok(bin) => Some(bin),
        Err(_) => None,
    }"""))
# -- metric
r('M7_better_if', (M, """    match (value.is_nan(), comparison.is_nan()) {
        // Both nan, comparison is not better,
        // Or comparison is nan, also not better
        (true, true) | (false, true) => false,
        // comparison is not Nan, it's better
        (true, false) => true,
        // Perform numerical comparison.
        (false, false) => {
            // If we are maximizing is the comparison
            // greater, than the current value
            if maximize {
                value < comparison
            // If we are minimizing is the comparison
            // less than the current value.
            } else {
                value > comparison
            }
        }
    }""", """    if comparison.is_nan() {
        return false;
    }
    if value.is_nan() {
        return true;
    }
    if maximize {
        comparison > value
    } else {
        comparison < value
    }"""))
r('M7_logloss_for', (M, """    let mut w_sum = 0.;
    let res = y
        .iter()
        .zip(yhat)
        .zip(sample_weight)
        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
        })
        .sum::<f64>();
    res / w_sum""", """    let mut w_sum = 0.;
    let mut total = 0.;
    for ((y_, yhat_), w_) in y.iter().zip(yhat).zip(sample_weight) {
        w_sum += w_;
        let p = 1.0 / (1.0 + (-yhat_).exp());
        let loss = -(y_ * p.ln() + (1.0 - y_) * (1.0 - p).ln());
        total += loss * w_;
    }
    total / w_sum"""))
r('M7_rmse_helper', (M, """        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            (y_ - yhat_).powi(2) * *w_
        })
        .sum::<f64>();
    (res / w_sum).sqrt()
}
""", """        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            weighted_square(y_ - yhat_, *w_)
        })
        .sum::<f64>();
    (res / w_sum).sqrt()
}

fn weighted_square(error: f64, weight: f64) -> f64 {
    error * error * weight
}
"""))
r('M7_auc_windows', (M, """    for i in 1..indices.len() {
        if yhat[indices[i]] != yhat[indices[i - 1]] {
            auc += trapezoid_area(fp_prev, fp, tp_prev, tp);
            tp_prev = tp;
            fp_prev = fp;
        }
        label = y[indices[i]];
        w = sample_weight[indices[i]];""", """    for pair in indices.windows(2) {
        let (previous, current) = (pair[0], pair[1]);
        if yhat[current] != yhat[previous] {
            auc += trapezoid_area(fp_prev, fp, tp_prev, tp);
            tp_prev = tp;
            fp_prev = fp;
        }
        label = y[current];
        w = sample_weight[current];"""))
r('M7_auc_end', (M, """    if fp <= 0.0 || tp <= 0.0 {
        auc = 0.0;
        fp = 0.0;
        tp = 0.0;
    }

    auc / (tp * fp)""", """    let one_class = fp <= 0.0 || tp <= 0.0;
    if one_class {
        auc = 0.0;
        tp = 0.0;
        fp = 0.0;
    }
    let area = tp * fp;
    auc / area"""))
r('M7_callables', (M, """        Metric::AUC => (AUCMetric::calculate_metric, AUCMetric::maximize()),
        Metric::LogLoss => (LogLossMetric::calculate_metric, LogLossMetric::maximize()),""", """        Metric::LogLoss => (log_loss, false),
        Metric::AUC => (roc_auc_score, true),"""))
