"""Fourth set of behaviour-preserving edits: everything but the booster, trees and splitters."""
from refactors import r, U, T, S, N, H, G, M, O, SA, B, D, P, SH
GR = 'src/grower.rs'

# ------------------------------------------------------------------ utils
r('U4_items', (U, """    let mut s = String::new();
    for i in items {
        s.push_str(i);
        s.push_str(&String::from(", "));
    }
    s""", """    let mut s = String::with_capacity(items.len() * 8);
    for item in items.iter() {
        s.push_str(item);
        s.push_str(", ");
    }
    s"""))
r('U4_validfloat', (U, """    let mut msg = String::new();
    if value.is_nan() || value < min || max < value {
        msg.push_str(&value.to_string());
        let ex_msg = format!("real value within rang {} and {}", min, max);
        Err(ForustError::InvalidParameter(
            parameter.to_string(),
            ex_msg,
            value.to_string(),
        ))
    } else {
        Ok(())
    }""", """    let in_range = !value.is_nan() && value >= min && value <= max;
    if in_range {
        return Ok(());
    }
    Err(ForustError::InvalidParameter(
        parameter.to_string(),
        format!("real value within rang {} and {}", min, max),
        value.to_string(),
    ))"""))
r('U4_nanvec', (U, """    if v.iter().any(|i| i.is_nan()) {
        Err(ForustError::MissingValuesFound(name))
    } else {
        Ok(())
    }""", """    for i in v {
        if i.is_nan() {
            return Err(ForustError::MissingValuesFound(name));
        }
    }
    Ok(())"""))
r('U4_posvec', (U, """    if v.iter().any(|i| i < &0.) {
        Err(ForustError::NegativeValuesFound(name))
    } else {
        Ok(())
    }""", """    match v.iter().find(|i| **i < 0.) {
        Some(_) => Err(ForustError::NegativeValuesFound(name)),
        None => Ok(()),
    }"""))
r('U4_posnan', (U, """    let remainder = v
        .iter()
        .filter(|i| i.is_nan() || i < &&0.)
        .copied()
        .collect::<Vec<f64>>();
    validate_positive_vec(&remainder, name.clone())?;
    validate_not_nan_vec(&remainder, name)?;
    Ok(())""", """    validate_positive_vec(v, name.clone())?;
    validate_not_nan_vec(v, name)"""))
r('U4_posnan2', (U, """    let remainder = v
        .iter()
        .filter(|i| i.is_nan() || i < &&0.)
        .copied()
        .collect::<Vec<f64>>();
    validate_positive_vec(&remainder, name.clone())?;
    validate_not_nan_vec(&remainder, name)?;
    Ok(())""", """    let mut remainder: Vec<f64> = Vec::new();
    for i in v {
        if i.is_nan() || *i < 0. {
            remainder.push(*i);
        }
    }
    validate_positive_vec(&remainder, name.clone())
        .and_then(|_| validate_not_nan_vec(&remainder, name))"""))
r('U4_missing', (U, """    if missing.is_nan() {
        value.is_nan()
    } else if value.is_nan() {
        panic!(
            "Missing value is {}, however NAN value found in data.",
            missing
        )
    } else {
        value == missing
    }""", """    let value_nan = value.is_nan();
    if missing.is_nan() {
        return value_nan;
    }
    assert!(
        !value_nan,
        "Missing value is {}, however NAN value found in data.",
        missing
    );
    *value == *missing"""))
r('U4_missing_match', (U, """    if missing.is_nan() {
        value.is_nan()
    } else if value.is_nan() {
        panic!(
            "Missing value is {}, however NAN value found in data.",
            missing
        )
    } else {
        value == missing
    }""", """    match (missing.is_nan(), value.is_nan()) {
        (true, value_is_nan) => value_is_nan,
        (false, true) => panic!(
            "Missing value is {}, however NAN value found in data.",
            missing
        ),
        (false, false) => value == missing,
    }"""))
r('U4_between', (U, """    if i > j {
        (i >= v) && (v >= j)
    } else {
        (i <= v) && (v <= j)
    }""", """    let (lo, hi) = if i > j { (j, i) } else { (i, j) };
    lo <= v && v <= hi"""))
r('U4_parent', (U, """        if left_weight > right_weight {
            // Here is what it looks like on the number line if we are here
            // right...left
            // Is the parent above the range?
            // i.e. right...left...parent?
            if left_weight < parent_weight {
                (parent_weight, right_weight)
            } else {
                // Otherwise if we are here, it must be outside of the range on the other side..
                // i.e. parent...right...left
                // In which case make parent equal right.
                (left_weight, parent_weight)
            }
        } else {
            // Here is what the number line looks like at this point...
            // left_weight..right_weight
            // Is the parent above the range?
            // i.e. left...right...parent?
            if right_weight < parent_weight {
                // In which case set right equal to parent.
                (left_weight, parent_weight)
            } else {
                // Is the parent bellow the range?
                // i.e. parent...left...right...
                // In which case set the left equal to the parent.
                (parent_weight, right_weight)
            }
        }""", """        let left_is_high = left_weight > right_weight;
        let above = if left_is_high {
            left_weight < parent_weight
        } else {
            right_weight < parent_weight
        };
        match (left_is_high, above) {
            (true, true) | (false, false) => (parent_weight, right_weight),
            (true, false) | (false, true) => (left_weight, parent_weight),
        }"""))
r('U4_cull', (U, """    match constraint {
        None | Some(Constraint::Unconstrained) => gain,
        Some(Constraint::Negative) => {
            if left_weight <= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
        Some(Constraint::Positive) => {
            if left_weight >= right_weight {
                f32::NEG_INFINITY
            } else {
                gain
            }
        }
    }""", """    let violated = match constraint {
        Some(Constraint::Negative) => left_weight <= right_weight,
        Some(Constraint::Positive) => right_weight <= left_weight,
        _ => false,
    };
    if violated {
        f32::NEG_INFINITY
    } else {
        gain
    }"""))
r('U4_l1', (U, """    if l1 == &0. {
        *w
    } else if w > l1 {
        w - l1
    } else if w < &-l1 {
        w + l1
    } else {
        0.0
    }""", """    if *l1 == 0. {
        return *w;
    }
    let l1 = *l1;
    match *w {
        w if w > l1 => w - l1,
        w if w < -l1 => w + l1,
        _ => 0.0,
    }"""))
r('U4_weight', (U, """    if (max_delta_step != &0.) && (&w.abs() > max_delta_step) {
        return max_delta_step.copysign(w);
    }
    w""", """    let capped = *max_delta_step != 0. && w.abs() > *max_delta_step;
    if capped {
        max_delta_step.copysign(w)
    } else {
        w
    }"""))
r('U4_fastsum', (U, """    let remainder: T = remainder.iter().copied().sum();

    let mut reduced = T::ZERO;
    for s in sum.iter().take(LANES) {
        reduced += *s;
    }
    reduced + remainder""", """    let mut reduced = T::ZERO;
    for s in sum {
        reduced += s;
    }
    let mut rest = T::ZERO;
    for r in remainder {
        rest += *r;
    }
    reduced + rest"""))
r('U4_fastf64', (U, """    let sum = chunks.fold([f64::ZERO; LANES], |mut acc, chunk| {
        let chunk: [f32; LANES] = chunk.try_into().unwrap();
        for i in 0..LANES {
            acc[i] += f64::from(chunk[i]);
        }
        acc
    });
""", """    let mut sum = [f64::ZERO; LANES];
    for chunk in chunks {
        for (acc, v) in sum.iter_mut().zip(chunk) {
            *acc += f64::from(*v);
        }
    }
"""))
r('U4_pct_enum', (U, """    for i in idx.iter() {
        if current_value != v[*i] {
            current_value = v[*i];
        }
        cuml_pct += sample_weight[*i] / total_values;""", """    for &i in &idx {
        if current_value != v[i] {
            current_value = v[i];
        }
        cuml_pct += sample_weight[i] / total_values;"""))
r('U4_pct_val', (U, """        if current_value != v[*i] {
            current_value = v[*i];
        }
        cuml_pct""", """        current_value = v[*i];
        cuml_pct"""))
r('U4_pct_iter', (U, """    let mut pcts = VecDeque::from_iter(percentiles.iter());
    let mut current_pct = *pcts.pop_front().expect("No percentiles were provided");
""", """    let mut pcts: VecDeque<&T> = percentiles.iter().collect();
    let mut current_pct = *pcts.pop_front().expect("No percentiles were provided");
"""))
r('U4_mapbin', (U, """    let mut low = 0;
    let mut high = x.len();
    while low != high {
        let mid = (low + high) / 2;
        // This will always be false for NaNs.
        // This it will force us to the bottom,
        // and thus Zero.
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()""", """    let (mut low, mut high) = (0, x.len());
    while low < high {
        let mid = (low + high) / 2;
        if x[mid] > *v {
            high = mid;
        } else {
            low = mid + 1;
        }
    }
    u16::try_from(low).ok()"""))
r('U4_mapbin_mid', (U, """        let mid = (low + high) / 2;
""", """        let mid = low + (high - low) / 2;
"""))
r('U4_mapbin_pp', (U, """    let mut low = 0;
    let mut high = x.len();
    while low != high {
        let mid = (low + high) / 2;
        // This will always be false for NaNs.
        // This it will force us to the bottom,
        // and thus Zero.
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()""", """    u16::try_from(x.partition_point(|cut| cut <= v)).ok()"""))
r('U4_pivot_matches', (U, """        while low < max_idx {
            let l = feature[index[low]];
            match missing_compare(&split_value, l, missing_right) {
                Ordering::Less | Ordering::Equal => break,
                Ordering::Greater => low += 1,
            }
        }""", """        while low < max_idx
            && missing_compare(&split_value, feature[index[low]], missing_right)
                == Ordering::Greater
        {
            low += 1;
        }"""))
r('U4_pivot_helper', (U, """        while high > low {
            let h = feature[index[high]];
            // Go until we find a high value that needs to be
            // swapped, this will be the first value that our
            // split_value is greater than.
            match missing_compare(&split_value, h, missing_right) {
                Ordering::Less | Ordering::Equal => high -= 1,
                Ordering::Greater => break,
            }
        }
        if low < high {
            index.swap(high, low);
        }
    }
    low
}
""", """        while high > low {
            if goes_left(split_value, feature[index[high]], missing_right) {
                break;
            }
            high -= 1;
        }
        if low < high {
            index.swap(low, high);
        }
    }
    low
}

#[inline]
fn goes_left(split_value: u16, value: u16, missing_right: bool) -> bool {
    matches!(
        missing_compare(&split_value, value, missing_right),
        Ordering::Greater
    )
}
"""))
r('U4_pivotx_max', (U, """                missing += 1;
                // Low must be at least equal to
                // missing. Otherwise, we would get
                // stuck, because low will be zero
                // then...
                if missing > low {
                    low = missing;
                }""", """                missing += 1;
                low = low.max(missing);"""))
r('U4_pivotx_if', (U, """            match &split_value.cmp(&l) {
                Ordering::Less | Ordering::Equal => break,
                Ordering::Greater => low += 1,
            }""", """            if split_value <= l {
                break;
            }
            low += 1;"""))
r('U4_mcmp', (U, """    if cmp_value == 0 {
        if missing_right {
            // If missing is right, then our split_value
            // will always be considered less than missing.
            Ordering::Less
        } else {
            // Otherwise less to send it left by considering
            // our split value being always greater than missing
            Ordering::Greater
        }
    } else {
        split_value.cmp(&cmp_value)
    }""", """    match (cmp_value, missing_right) {
        (0, true) => Ordering::Less,
        (0, false) => Ordering::Greater,
        (value, _) => split_value.cmp(&value),
    }"""))

# ------------------------------------------------------------------ histogram
r('H4_sub_helper', (H, """        Bin {
            gradient_sum: root_bin.gradient_sum
                - (first_child_bin.gradient_sum + second_child_bin.gradient_sum),
            hessian_sum: root_bin.hessian_sum
                - (first_child_bin.hessian_sum + second_child_bin.hessian_sum),
            cut_value: root_bin.cut_value,
        }""", """        let children_grad = first_child_bin.gradient_sum + second_child_bin.gradient_sum;
        let children_hess = first_child_bin.hessian_sum + second_child_bin.hessian_sum;
        Bin {
            gradient_sum: root_bin.gradient_sum - children_grad,
            hessian_sum: root_bin.hessian_sum - children_hess,
            ..root_bin.clone()
        }"""))
r('H4_create_loop', (H, """    index
        .iter()
        .zip(sorted_grad)
        .zip(sorted_hess)
        .for_each(|((i, g), h)| {
            if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                v.gradient_sum += f64::from(*g);
                v.hessian_sum += f64::from(*h);
            }
        });""", """    for ((i, g), h) in index.iter().zip(sorted_grad).zip(sorted_hess) {
        let bin = usize::from(feature[*i]);
        if bin < histogram.len() {
            histogram[bin].gradient_sum += f64::from(*g);
            histogram[bin].hessian_sum += f64::from(*h);
        }
    }"""))
r('H4_create_split', (H, """    histogram.extend(cuts[..(cuts.len() - 1)].iter().map(|c| Bin::new_f64(*c)));""", """    for c in cuts.iter().take(cuts.len() - 1) {
        histogram.push(Bin::new_f64(*c));
    }"""))
r('H4_create_chain', (H, """    let mut histogram: Vec<Bin<f64>> = Vec::with_capacity(cuts.len());
    // The first value is missing, it seems to not matter that we are using
    // Missing here, rather than the booster "missing" definition, because
    // we just always assume the first bin of the histogram is missing.
    histogram.push(Bin::new_f64(f64::NAN));
    // The last cut value is simply the maximum possible value, so we don't need it.
    // This value is needed initially for binning, but we don't need to count it as
    // a histogram bin.
    histogram.extend(cuts[..(cuts.len() - 1)].iter().map(|c| Bin::new_f64(*c)));""", """    let n_cuts = cuts.len() - 1;
    let mut histogram: Vec<Bin<f64>> = std::iter::once(f64::NAN)
        .chain(cuts[..n_cuts].iter().copied())
        .map(Bin::new_f64)
        .collect();"""))
r('H4_sort_map', (H, """            let mut n_grad = Vec::new();
            let mut n_hess = Vec::new();
            for i in index {
                let i_ = *i;
                n_grad.push(grad[i_]);
                n_hess.push(hess[i_]);
            }
            (n_grad, n_hess)""", """            (
                index.iter().map(|i| grad[*i]).collect(),
                index.iter().map(|i| hess[*i]).collect(),
            )"""))
r('H4_sort_unzip', (H, """            let mut n_grad = Vec::new();
            let mut n_hess = Vec::new();
            for i in index {
                let i_ = *i;
                n_grad.push(grad[i_]);
                n_hess.push(hess[i_]);
            }
            (n_grad, n_hess)""", """            index.iter().map(|&i| (grad[i], hess[i])).unzip()"""))
r('H4_ends_loop', (H, """            col_index
                .iter()
                .scan(0_usize, |state, i| {
                    *state += cuts.get_col(*i).len();
                    Some(*state)
                })
                .collect()
        };
        let n_records = if col_index.len() == data.cols {
            cuts.n_records
        } else {
            ends.iter().sum()
        };""", """            let mut total = 0;
            let mut ends_ = Vec::with_capacity(col_index.len());
            for i in col_index {
                total += cuts.get_col(*i).len();
                ends_.push(total);
            }
            ends_
        };
        let all_columns = col_index.len() == data.cols;
        let n_records = match all_columns {
            true => cuts.n_records,
            false => ends.iter().sum(),
        };"""))
r('H4_two_loop', (H, """        let histograms = root
            .data
            .iter()
            .zip(first_child.data.iter())
            .zip(second_child.data.iter())
            .map(|((root_bin, first_child_bin), second_child_bin)| {
                Bin::from_parent_two_children(root_bin, first_child_bin, second_child_bin)
            })
            .collect();""", """        let mut histograms = Vec::with_capacity(root.data.len());
        for (i, root_bin) in root.data.iter().enumerate() {
            histograms.push(Bin::from_parent_two_children(
                root_bin,
                &first_child.data[i],
                &second_child.data[i],
            ));
        }"""))

# ------------------------------------------------------------------ binning
r('B4_pcts_extend', (B, """    let mut pcts = Vec::new();
    let nbins_ = f64::from_u16(nbins);
    for i in 0..nbins {
        let v = f64::from_u16(i) / nbins_;
        pcts.push(v);
    }
""", """    let nbins_ = f64::from_u16(nbins);
    let pcts: Vec<f64> = (0..nbins).map(|i| f64::from(i) / nbins_).collect();
"""))
r('B4_filter_loop', (B, """        let (no_miss, w): (Vec<f64>, Vec<f64>) = data
            .get_col(i)
            .iter()
            .zip(sample_weight.iter())
            // It is unrecoverable if they have provided missing values in
            // the data other than the specificized missing.
            .filter(|(v, _)| !is_missing(v, &missing))
            .unzip();
""", """        let mut no_miss: Vec<f64> = Vec::new();
        let mut w: Vec<f64> = Vec::new();
        for (v, w_) in data.get_col(i).iter().zip(sample_weight.iter()) {
            if is_missing(v, &missing) {
                continue;
            }
            no_miss.push(*v);
            w.push(*w_);
        }
"""))
r('B4_helper', (B, """        cuts.data.extend(col_cuts);
        let e = match cuts.ends.last() {
            Some(v) => v + l,
            None => l,
        };
        cuts.ends.push(e);
        cuts.cols = cuts.ends.len();
        cuts.n_records = cuts.ends.iter().sum();
    }
""", """        cuts.data.extend(col_cuts);
        let e = cuts.ends.last().copied().unwrap_or(0) + l;
        cuts.ends.push(e);
        cuts.cols += 1;
        cuts.n_records += e;
    }
"""))
r('B4_last', (B, """        cuts.ends.push(e);
        cuts.cols = cuts.ends.len();
        cuts.n_records = cuts.ends.iter().sum();
    }
""", """        cuts.ends.push(e);
    }
    cuts.cols = cuts.ends.len();
    cuts.n_records = cuts.ends.iter().sum();
"""))
r('B4_fromcuts_loop', (B, """    data.data
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let col = i / data.rows;
            // This will always be smaller than u16::MAX so we
            // are good to just unwrap here.
            map_bin(cuts.get_col(col), v, missing).unwrap()
        })
        .collect()""", """    let mut binned = Vec::with_capacity(data.data.len());
    for (i, v) in data.data.iter().enumerate() {
        let column_cuts = cuts.get_col(i / data.rows);
        match map_bin(column_cuts, v, missing) {
            Some(b) => binned.push(b),
            None => unreachable!(),
        }
    }
    binned"""))
r('B4_pov', (B, """    if v_u.len() <= pcts.len() + 1 {
        v_u
    } else {
        percentiles(v, sample_weight, pcts)
    }""", """    if v_u.len() > pcts.len() + 1 {
        return percentiles(v, sample_weight, pcts);
    }
    v_u"""))
r('B4_nunique', (B, """        nunique.push(col_cuts.len());
        let l = col_cuts.len();
        cuts.data.extend(col_cuts);""", """        let l = col_cuts.len();
        nunique.push(l);
        for c in col_cuts {
            cuts.data.push(c);
        }"""))

# ------------------------------------------------------------------ data
r('D4_index', (D, """        &self.data[self.item_index(i, j)]
    }

    fn item_index(&self, i: usize, j: usize) -> usize {
        let mut idx = self.stride2 * i;
        idx += j * self.stride1;
        idx
    }

    /// Get access""", """        &self.data[self.item_index(i, j)]
    }

    fn item_index(&self, i: usize, j: usize) -> usize {
        self.stride1 * j + i * self.stride2
    }

    /// Get access"""))
r('D4_row', (D, """        self.get_row_iter(row).copied().collect()""", """        let mut values = Vec::new();
        for v in self.get_row_iter(row) {
            values.push(*v);
        }
        values"""))
r('D4_row2', (D, """        self.get_row_iter(row).copied().collect()""", """        self.data.iter().skip(row).step_by(self.rows).cloned().collect()"""))
r('D4_getcol', (D, """        self.get_col_slice(col, 0, self.rows)""", """        let start = self.item_index(0, col);
        let end = self.item_index(self.rows, col);
        &self.data[start..end]"""))
r('D4_jcol', (D, """    pub fn get_col(&self, col: usize) -> &[T] {
        assert!(col < self.ends.len());
        let (i, j) = if col == 0 {
            (0, self.ends[col])
        } else {
            (self.ends[col - 1], self.ends[col])
        };
        &self.data[i..j]""", """    pub fn get_col(&self, col: usize) -> &[T] {
        assert!(col < self.ends.len());
        let start = match col {
            0 => 0,
            c => self.ends[c - 1],
        };
        &self.data[start..self.ends[col]]"""))
r('D4_append', (D, """        let new_rows = items.len() / self.cols;
        self.rows += new_rows;
        self.data.extend(items);""", """        self.rows += items.len() / self.cols;
        for item in items {
            self.data.push(item);
        }"""))
r('D4_fromvecs', (D, """            for v in vec {
                data.push(*v);
            }
            e += vec.len();
            ends.push(e);
            n_records += e;""", """            data.extend_from_slice(vec);
            e = data.len();
            ends.push(e);
            n_records += e;"""))
r('D4_new', (D, """            index: (0..rows).collect(),
            rows,""", """            index: Vec::from_iter(0..rows),
            rows,"""))

# ------------------------------------------------------------------ metric
r('M4_better', (M, """    match (value.is_nan(), comparison.is_nan()) {
        // Both nan, comparison is not better,
        // Or comparison is nan, also not better
        (true, true) | (false, true) => false,
        // comparison is not Nan, it's better
        (true, false) => true,
        // Perform numerical comparison.
        (false, false) => {
            // If we are maximizing is the comparison
            // greater, than the current value
            if maximize {
                value < comparison
            // If we are minimizing is the comparison
            // less than the current value.
            } else {
                value > comparison
            }
        }
    }""", """    if comparison.is_nan() {
        return false;
    }
    if value.is_nan() {
        return true;
    }
    (maximize && comparison > value) || (!maximize && comparison < value)"""))
r('M4_ll_loop', (M, """    let mut w_sum = 0.;
    let res = y
        .iter()
        .zip(yhat)
        .zip(sample_weight)
        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
        })
        .sum::<f64>();
    res / w_sum""", """    let mut w_sum = 0.;
    let mut total = 0.;
    for ((y_, yhat_), w_) in y.iter().zip(yhat).zip(sample_weight) {
        let p = crate::utils::odds(*yhat_);
        total += -(*y_ * p.ln() + (1. - *y_) * (1. - p).ln()) * *w_;
        w_sum += *w_;
    }
    total / w_sum"""))
r('M4_rmse_fold', (M, """            w_sum += *w_;
            (y_ - yhat_).powi(2) * *w_
        })
        .sum::<f64>();
    (res / w_sum).sqrt()""", """            w_sum += *w_;
            let diff = yhat_ - y_;
            diff * diff * *w_
        })
        .sum::<f64>();
    f64::sqrt(res / w_sum)"""))
r('M4_rmse_pair', (M, """    let mut w_sum = 0.;
    let res = y
        .iter()
        .zip(yhat)
        .zip(sample_weight)
        .map(|((y_, yhat_), w_)| {
            w_sum += *w_;
            (y_.ln_1p() - yhat_.ln_1p()).powi(2) * *w_
        })
        .sum::<f64>();
    (res / w_sum).sqrt()""", """    let (res, w_sum) = y.iter().zip(yhat).zip(sample_weight).fold(
        (0., 0.),
        |(res, w_sum): (f64, f64), ((y_, yhat_), w_)| {
            (
                res + (y_.ln_1p() - yhat_.ln_1p()).powi(2) * *w_,
                w_sum + *w_,
            )
        },
    );
    (res / w_sum).sqrt()"""))
r('M4_auc_windows', (M, """    for i in 1..indices.len() {
        if yhat[indices[i]] != yhat[indices[i - 1]] {
            auc += trapezoid_area(fp_prev, fp, tp_prev, tp);
            tp_prev = tp;
            fp_prev = fp;
        }
        label = y[indices[i]];
        w = sample_weight[indices[i]];""", """    for pair in indices.windows(2) {
        let (prev, cur) = (pair[0], pair[1]);
        if yhat[cur] != yhat[prev] {
            auc += trapezoid_area(fp_prev, fp, tp_prev, tp);
            tp_prev = tp;
            fp_prev = fp;
        }
        label = y[cur];
        w = sample_weight[cur];"""))
r('M4_auc_tail', (M, """    auc += trapezoid_area(fp_prev, fp, tp_prev, tp);
    if fp <= 0.0 || tp <= 0.0 {
        auc = 0.0;
        fp = 0.0;
        tp = 0.0;
    }

    auc / (tp * fp)""", """    auc += trapezoid_area(fp_prev, fp, tp_prev, tp);
    let degenerate = fp <= 0.0 || tp <= 0.0;
    let (auc, area) = if degenerate {
        (0.0, 0.0)
    } else {
        (auc, tp * fp)
    };
    auc / area"""))
r('M4_auc_let', (M, """        label = y[indices[i]];
        w = sample_weight[indices[i]];
        fp += (1.0 - label) * w;
        tp += label * w;""", """        let idx = indices[i];
        label = y[idx];
        w = sample_weight[idx];
        tp += w * label;
        fp += w - w * label;"""))
r('M4_callables', (M, """    match metric_type {
        Metric::AUC => (AUCMetric::calculate_metric, AUCMetric::maximize()),
        Metric::LogLoss => (LogLossMetric::calculate_metric, LogLossMetric::maximize()),""", """    match metric_type {
        Metric::AUC => (roc_auc_score, true),
        Metric::LogLoss => (log_loss, false),"""))
r('M4_default_max', (M, """    fn maximize() -> bool;
}""", """    fn maximize() -> bool {
        false
    }
}"""))

# ------------------------------------------------------------------ objective
r('O4_init_zip', (O, """        let mut ytot: f64 = 0.;
        let mut ntot: f64 = 0.;
        for i in 0..y.len() {
            ytot += sample_weight[i] * y[i];
            ntot += sample_weight[i];
        }

        ytot / ntot""", """        let (mut num, mut den) = (0., 0.);
        for (y_, w_) in y.iter().zip(sample_weight) {
            num += y_ * w_;
            den += w_;
        }
        num / den"""))
r('O4_init_share', (O, """        let mut ytot: f64 = 0.;
        let mut ntot: f64 = 0.;
        for i in 0..y.len() {
            ytot += sample_weight[i] * y[i];
            ntot += sample_weight[i];
        }

        ytot / ntot
    }""", """        let (ytot, ntot) = weighted_totals(y, sample_weight);
        ytot / ntot
    }"""), (O, """        let mut ytot: f64 = 0.;
        let mut ntot: f64 = 0.;
        for i in 0..y.len() {
            ytot += sample_weight[i] * y[i];
            ntot += sample_weight[i];
        }
        f64::ln(ytot / (ntot - ytot))""", """        let (ytot, ntot) = weighted_totals(y, sample_weight);
        (ytot / (ntot - ytot)).ln()"""), (O, """#[derive(Default)]
pub struct LogLoss {}""", """fn weighted_totals(y: &[f64], sample_weight: &[f64]) -> (f64, f64) {
    let ytot = y.iter().zip(sample_weight).map(|(y_, w_)| y_ * w_).sum();
    let ntot = sample_weight.iter().sum();
    (ytot, ntot)
}

#[derive(Default)]
pub struct LogLoss {}"""))
r('O4_grad_loop', (O, """        y.iter()
            .zip(yhat)
            .zip(sample_weight)
            .map(|((y_, yhat_), w_)| {
                let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
                (
                    ((yhat_ - *y_) * *w_) as f32,
                    (yhat_ * (f64::ONE - yhat_) * *w_) as f32,
                )
            })
            .unzip()""", """        let mut grad = Vec::with_capacity(y.len());
        let mut hess = Vec::with_capacity(y.len());
        for i in 0..y.len() {
            let p = f64::ONE / (f64::ONE + (-yhat[i]).exp());
            grad.push(((p - y[i]) * sample_weight[i]) as f32);
            hess.push((p * (f64::ONE - p) * sample_weight[i]) as f32);
        }
        (grad, hess)"""))
r('O4_sq_two', (O, """        y.iter()
            .zip(yhat)
            .zip(sample_weight)
            .map(|((y_, yhat_), w_)| (((yhat_ - *y_) * *w_) as f32, *w_ as f32))
            .unzip()""", """        let grad = y
            .iter()
            .zip(yhat)
            .zip(sample_weight)
            .map(|((y_, yhat_), w_)| ((*yhat_ - *y_) * *w_) as f32)
            .collect();
        let hess = sample_weight.iter().map(|w_| *w_ as f32).collect();
        (grad, hess)"""))
r('O4_sigmoid', (O, """                let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
                (
                    ((yhat_ - *y_) * *w_) as f32,
                    (yhat_ * (f64::ONE - yhat_) * *w_) as f32,
                )""", """                let p = crate::utils::odds(*yhat_);
                let g = (p - *y_) * *w_;
                let h = (p - p * p) * *w_;
                (g as f32, h as f32)"""))

# ------------------------------------------------------------------ sampler
r('SA4_rand_partition', (SA, """        let subsample = self.subsample;
        let mut chosen = Vec::new();
        let mut excluded = Vec::new();
        for i in index {
            if rng.gen_range(0.0..1.0) < subsample {
                chosen.push(*i);
            } else {
                excluded.push(*i)
            }
        }
        (chosen, excluded)""", """        let subsample = self.subsample;
        index
            .iter()
            .partition(|_| rng.gen_range(0.0..1.0) < subsample)"""))
r('SA4_rand_draw', (SA, """            if rng.gen_range(0.0..1.0) < subsample {
                chosen.push(*i);
            } else {
                excluded.push(*i)
            }""", """            let draw: f32 = rng.gen_range(0.0..1.0);
            let bucket = if draw < subsample {
                &mut chosen
            } else {
                &mut excluded
            };
            bucket.push(*i);"""))
r('SA4_goss_n', (SA, """        let fact = ((1. - self.a) / self.b) as f32;
        let top_n = (self.a * index.len() as f64) as usize;
        let rand_n = (self.b * index.len() as f64) as usize;
""", """        let n = index.len();
        let fact = ((1. - self.a) / self.b) as f32;
        let top_n = (n as f64 * self.a) as usize;
        let rand_n = (n as f64 * self.b) as usize;
"""))
r('SA4_goss_split', (SA, """        // select the topN largest gradients
        let mut used_set = sorted[0..top_n].to_vec();
""", """        let (top, rest) = sorted.split_at(top_n);
        let mut used_set = top.to_vec();
"""), (SA, """        for i in &sorted[top_n..sorted.len()] {""", """        for i in rest {"""))
r('SA4_goss_skip', (SA, """        for i in &sorted[top_n..sorted.len()] {
            if rng.gen_range(0.0..1.0) < subsample {
                grad[*i] *= fact;
                hess[*i] *= fact;
                used_set.push(*i);
            }
        }""", """        for &i in sorted.iter().skip(top_n) {
            if rng.gen_range(0.0..1.0) >= subsample {
                continue;
            }
            used_set.push(i);
            hess[i] *= fact;
            grad[i] = grad[i] * fact;
        }"""))

# ------------------------------------------------------------------ partial dependence
r('P4_child', (P, """        let child = if is_missing(&value, missing) {
            n.missing_node
        } else if value < n.split_value {
            n.left_child
        } else {
            n.right_child
        };
        tree_partial_dependence(tree, child, feature, value, proportion, missing)""", """        let child = n.get_child_idx(&value, missing);
        tree_partial_dependence(tree, child, feature, value, proportion, missing)"""), (P, "use crate::{tree::Tree, utils::is_missing};", "use crate::tree::Tree;"))
r('P4_children', (P, """        let left_cover = get_node_cover(tree, n.left_child);
        let right_cover = get_node_cover(tree, n.right_child);
        let missing_cover = if n.has_missing_branch() {
            get_node_cover(tree, n.missing_node)
        } else {
            0.0
        };
        let total_cover = left_cover + right_cover + missing_cover;
        let missing_pd = if n.has_missing_branch() {
            tree_partial_dependence(
                tree,
                n.missing_node,
                feature,
                value,
                proportion * (missing_cover / total_cover),
                missing,
            )
        } else {
            0.
        };
        tree_partial_dependence(
            tree,
            n.left_child,
            feature,
            value,
            proportion * (left_cover / total_cover),
            missing,
        ) + tree_partial_dependence(
            tree,
            n.right_child,
            feature,
            value,
            proportion * (right_cover / total_cover),
            missing,
        ) + missing_pd""", """        let mut children = vec![n.left_child, n.right_child];
        if n.has_missing_branch() {
            children.push(n.missing_node);
        }
        let mut total_cover = 0.0;
        for c in &children {
            total_cover += get_node_cover(tree, *c);
        }
        let mut pd = 0.;
        for c in children {
            let share = proportion * (get_node_cover(tree, c) / total_cover);
            pd += tree_partial_dependence(tree, c, feature, value, share, missing);
        }
        pd"""))
r('P4_closure', (P, """        let missing_pd = if n.has_missing_branch() {
            tree_partial_dependence(
                tree,
                n.missing_node,
                feature,
                value,
                proportion * (missing_cover / total_cover),
                missing,
            )
        } else {
            0.
        };
        tree_partial_dependence(
            tree,
            n.left_child,
            feature,
            value,
            proportion * (left_cover / total_cover),
            missing,
        ) + tree_partial_dependence(
            tree,
            n.right_child,
            feature,
            value,
            proportion * (right_cover / total_cover),
            missing,
        ) + missing_pd""", """        let branch = |child: usize, cover: f32| {
            let share = cover / total_cover;
            tree_partial_dependence(tree, child, feature, value, proportion * share, missing)
        };
        let mut pd = branch(n.left_child, left_cover) + branch(n.right_child, right_cover);
        if n.has_missing_branch() {
            pd += branch(n.missing_node, missing_cover);
        }
        pd"""))

# ------------------------------------------------------------------ shapley
r('SH4_extend', (SH, """    unique_path.get_element_mut(unique_depth).feature_index = feature_index;
    unique_path.get_element_mut(unique_depth).zero_fraction = zero_fraction;
    unique_path.get_element_mut(unique_depth).one_fraction = one_fraction;
    unique_path.get_element_mut(unique_depth).pweight = if unique_depth == 0 { 1.0 } else { 0.0 };
""", """    let element = unique_path.get_element_mut(unique_depth);
    element.feature_index = feature_index;
    element.zero_fraction = zero_fraction;
    element.one_fraction = one_fraction;
    element.pweight = if unique_depth == 0 { 1.0 } else { 0.0 };
"""))
r('SH4_extend2', (SH, """    unique_path.get_element_mut(unique_depth).feature_index = feature_index;
    unique_path.get_element_mut(unique_depth).zero_fraction = zero_fraction;
    unique_path.get_element_mut(unique_depth).one_fraction = one_fraction;
    unique_path.get_element_mut(unique_depth).pweight = if unique_depth == 0 { 1.0 } else { 0.0 };
""", """    *unique_path.get_element_mut(unique_depth) = PathElement {
        feature_index,
        zero_fraction,
        one_fraction,
        pweight: if unique_depth > 0 { 0.0 } else { 1.0 },
    };
"""))
r('SH4_unwind_copy', (SH, """        unique_path.get_element_mut(i).feature_index = unique_path.get_element(i + 1).feature_index;
        unique_path.get_element_mut(i).zero_fraction = unique_path.get_element(i + 1).zero_fraction;
        unique_path.get_element_mut(i).one_fraction = unique_path.get_element(i + 1).one_fraction;
""", """        let next = *unique_path.get_element(i + 1);
        let current = unique_path.get_element_mut(i);
        current.feature_index = next.feature_index;
        current.zero_fraction = next.zero_fraction;
        current.one_fraction = next.one_fraction;
"""))
r('SH4_position', (SH, """        let mut path_index = 0;
        while path_index <= unique_depth {
            if unique_path.get_element(path_index).feature_index == node.split_feature {
                break;
            }
            path_index += 1;
        }

        if path_index != (unique_depth + 1) {
            incoming_zero""", """        let mut path_index = 0;
        while path_index < unique_depth + 1
            && unique_path.get_element(path_index).feature_index != node.split_feature
        {
            path_index += 1;
        }

        if path_index <= unique_depth {
            incoming_zero"""))
r('SH4_children', (SH, """        for (i, n_idx) in hot_cold_children.into_iter().enumerate() {
            let zero_fraction =
                (tree.nodes[n_idx].hessian_sum / node.hessian_sum) * incoming_zero_fraction;
            let onf = if i == 0 { incoming_one_fraction } else { 0. };
            tree_shap(""", """        let mut onf = incoming_one_fraction;
        for n_idx in hot_cold_children {
            let child = &tree.nodes[n_idx];
            let zero_fraction = (child.hessian_sum / node.hessian_sum) * incoming_zero_fraction;
            tree_shap("""), (SH, """                node.split_feature,
                missing,
            )
        }
    }
}
""", """                node.split_feature,
                missing,
            );
            onf = 0.;
        }
    }
}
"""))
r('SH4_leaf', (SH, """    if node.is_leaf {
        for i in 1..(unique_depth + 1) {
            let w = unwound_path_sum(&mut unique_path, unique_depth, i);
            let el = unique_path.get_element(i);
            contribs[el.feature_index] +=
                f64::from(w * (el.one_fraction - el.zero_fraction) * node.weight_value);
        }
    } else {""", """    if node.is_leaf {
        for i in 1..=unique_depth {
            let w = unwound_path_sum(&mut unique_path, unique_depth, i);
            let PathElement {
                feature_index,
                zero_fraction,
                one_fraction,
                ..
            } = *unique_path.get_element(i);
            let scale = one_fraction - zero_fraction;
            contribs[feature_index] += f64::from(w * scale * node.weight_value);
        }
    } else {"""))
r('SH4_hot', (SH, """    if node.has_missing_branch() {
        // we know there will be 3 children if there is a missing branch.
        if next_node_idx == node.right_child {
            vec![node.right_child, node.left_child, node.missing_node]
        } else if next_node_idx == node.left_child {
            vec![node.left_child, node.right_child, node.missing_node]
        } else {
            vec![node.missing_node, node.left_child, node.right_child]
        }
    } else if next_node_idx == node.right_child {
        vec![node.right_child, node.left_child]
    } else {
        vec![node.left_child, node.right_child]
    }""", """    let (left, right, missing) = (node.left_child, node.right_child, node.missing_node);
    let three_way = node.has_missing_branch();
    let mut children = if next_node_idx == right {
        vec![right, left]
    } else if next_node_idx == left || !three_way {
        vec![left, right]
    } else {
        return vec![missing, left, right];
    };
    if three_way {
        children.push(missing);
    }
    children"""))
r('SH4_getel', (SH, """        if i == self.paths.len() {
            self.paths.push(PathElement::default());
            &self.paths[i]
        } else {
            // This will panic for us, if we are out of bounds.
            &self.paths[i]
        }""", """        if i == self.paths.len() {
            self.paths.push(PathElement::default());
        }
        &self.paths[i]"""))

# ------------------------------------------------------------------ node, grower
r('N4_missing_branch', (N, """        (self.missing_node != self.right_child) && (self.missing_node != self.left_child)""", """        !(self.missing_node == self.left_child || self.missing_node == self.right_child)"""))
r('N4_child', (N, """        if is_missing(v, missing) {
            self.missing_node
        } else if v < &self.split_value {
            self.left_child
        } else {
            self.right_child
        }""", """        if is_missing(v, missing) {
            return self.missing_node;
        }
        match *v < self.split_value {
            true => self.left_child,
            false => self.right_child,
        }"""))
r('N4_gain', (N, """        let missing_split_gain = match &missing_node_info {
            MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) => ni.gain,
            _ => 0.,
        };
        left_node_info.gain + right_node_info.gain + missing_split_gain - self.gain_value - gamma""", """        let mut children_gain = left_node_info.gain + right_node_info.gain;
        if let MissingInfo::Branch(ni) | MissingInfo::Leaf(ni) = missing_node_info {
            children_gain += ni.gain;
        }
        children_gain - self.gain_value - gamma"""))
r('N4_from_info', (N, """        SplittableNode {
            num,
            histograms,
            weight_value: node_info.weight,
            gain_value: node_info.gain,
            gradient_sum: node_info.grad,
            hessian_sum: node_info.cover,
            depth,
            split_value: f64::ZERO,
            split_feature: 0,
            split_gain: f32::ZERO,
            missing_node: 0,
            left_child: 0,
            right_child: 0,
            start_idx,
            stop_idx,
            lower_bound: node_info.bounds.0,
            upper_bound: node_info.bounds.1,
            is_leaf: true,
            is_missing_leaf: false,
        }""", """        let (lower_bound, upper_bound) = node_info.bounds;
        SplittableNode::new(
            num,
            histograms,
            node_info.weight,
            node_info.gain,
            node_info.grad,
            node_info.cover,
            depth,
            start_idx,
            stop_idx,
            lower_bound,
            upper_bound,
        )"""))
r('N4_eq', (N, """        self.gain_value.total_cmp(&other.gain_value)""", """        f32::total_cmp(&self.gain_value, &other.gain_value)"""))
r('GR4_deque', (GR, """        self.push_front(node);
    }

    fn get_next_node(&mut self) -> SplittableNode {
        self.pop_back().expect("Grower should not be empty")""", """        self.push_back(node);
    }

    fn get_next_node(&mut self) -> SplittableNode {
        self.pop_front().expect("Grower should not be empty")"""))
r('GR4_pop', (GR, """        self.pop().expect("Grower should not be empty")""", """        match self.pop() {
            Some(node) => node,
            None => panic!("Grower should not be empty"),
        }"""))
