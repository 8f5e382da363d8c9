//! C05 validation, C07/C08 missing test, binning and partition, C13 weight and gain, C14 bounds, C25.
use crate::constraints::Constraint;
use crate::data::FloatData;
use crate::errors::ForustError;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::convert::TryInto;

pub fn items_to_strings(items: Vec<&str>) -> String {
    let mut s = String::new();
    for i in items {
        s.push_str(i);
        s.push_str(&String::from(", "));
    }
    s
}

pub fn fmt_vec_output<T: FloatData<T>>(v: &[T]) -> String {
    let mut res = String::new();
    if let Some(last) = v.len().checked_sub(1) {
        if last == 0 {
            return format!("{:.4}", v[0]);
        }
        for n in &v[..last] {
            res.push_str(format!("{:.4}", n).as_str());
            res.push_str(", ");
        }
        res.push_str(format!("{:.4}", &v[last]).as_str());
    }
    res
}

pub fn validate_positive_float_parameter<T: FloatData<T>>(value: T, parameter: &str) -> Result<(), ForustError> {
    let (zero, infinity) = (T::ZERO, T::INFINITY);
    validate_float_parameter(value, zero, infinity, parameter)
}

/// valid exactly when min <= value <= max, in particular not NaN
pub fn validate_float_parameter<T: FloatData<T>>(
    value: T,
    min: T,
    max: T,
    parameter: &str,
) -> Result<(), ForustError> {
    if !value.is_nan() && !(value < min) && !(max < value) {
        return Ok(());
    }
    Err(ForustError::InvalidParameter(
        parameter.to_string(),
        format!("real value within rang {} and {}", min, max),
        value.to_string(),
    ))
}

pub fn validate_not_nan_vec(v: &[f64], name: String) -> Result<(), ForustError> {
    for x in v {
        if x.is_nan() {
            return Err(ForustError::MissingValuesFound(name));
        }
    }
    Ok(())
}

pub fn validate_positive_vec(v: &[f64], name: String) -> Result<(), ForustError> {
    for x in v {
        if *x < 0.0 {
            return Err(ForustError::NegativeValuesFound(name));
        }
    }
    Ok(())
}

pub fn validate_positive_not_nan_vec(v: &[f64], name: String) -> Result<(), ForustError> {
    let suspicious: Vec<f64> = v.iter().filter(|x| x.is_nan() || **x < 0.0).copied().collect();
    if let Err(e) = validate_positive_vec(&suspicious, name.clone()) {
        return Err(e);
    }
    validate_not_nan_vec(&suspicious, name)
}

pub fn is_missing(value: &f64, missing: &f64) -> bool {
    if !missing.is_nan() {
        if value.is_nan() {
            panic!("Missing value is {}, however NAN value found in data.", missing)
        }
        return *value == *missing;
    }
    value.is_nan()
}

/// the unconstrained weight limited to the bounds that the ancestors imply
#[allow(clippy::too_many_arguments)]
pub fn constrained_weight(
    l1: &f32,
    l2: &f32,
    max_delta_step: &f32,
    gradient_sum: f32,
    hessian_sum: f32,
    lower_bound: f32,
    upper_bound: f32,
    _constraint: Option<&Constraint>,
) -> f32 {
    let w = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
    if w > upper_bound {
        return upper_bound;
    }
    if w < lower_bound {
        return lower_bound;
    }
    w
}

pub fn between(i: f32, j: f32, v: f32) -> bool {
    (i > j && j <= v && v <= i) || (!(i > j) && i <= v && v <= j)
}

/// Only a child that is on the wrong side of its parent is moved, and it is moved to the parent's value.
pub fn bound_to_parent(parent_weight: f32, left_weight: f32, right_weight: f32) -> (f32, f32) {
    if between(left_weight, right_weight, parent_weight) {
        return (left_weight, right_weight);
    }
    let left_is_upper = left_weight > right_weight;
    let upper = if left_is_upper { left_weight } else { right_weight };
    let above = upper < parent_weight;
    // parent above both: the upper child moves; parent below both: the lower child moves
    if above == left_is_upper {
        (parent_weight, right_weight)
    } else {
        (left_weight, parent_weight)
    }
}

pub fn odds(v: f64) -> f64 {
    (1.0 + (-v).exp()).recip()
}

pub fn gain(l2: &f32, gradient_sum: f32, hessian_sum: f32) -> f32 {
    let d = *l2 + hessian_sum;
    gradient_sum * gradient_sum / d
}

pub fn gain_given_weight(l2: &f32, gradient_sum: f32, hessian_sum: f32, weight: f32) -> f32 {
    -2.0 * gradient_sum * weight - weight * weight * hessian_sum - weight * weight * *l2
}

pub fn cull_gain(gain: f32, left_weight: f32, right_weight: f32, constraint: Option<&Constraint>) -> f32 {
    let violated = match constraint {
        Some(Constraint::Positive) => left_weight >= right_weight,
        Some(Constraint::Negative) => left_weight <= right_weight,
        _ => false,
    };
    if violated {
        -f32::INFINITY
    } else {
        gain
    }
}

/// soft threshold
pub fn l1_regularization(w: &f32, l1: &f32) -> f32 {
    let (w, t) = (*w, *l1);
    if t == 0.0 {
        return w;
    }
    if w > t {
        return w - t;
    }
    if w < -t {
        return w + t;
    }
    0.0
}

pub fn weight(l1: &f32, l2: &f32, max_delta_step: &f32, gradient_sum: f32, hessian_sum: f32) -> f32 {
    let step = -l1_regularization(&gradient_sum, l1) / (*l2 + hessian_sum);
    if *max_delta_step != 0.0 && step.abs() > *max_delta_step {
        max_delta_step.copysign(step)
    } else {
        step
    }
}

const LANES: usize = 16;

pub fn fast_sum<T: FloatData<T>>(values: &[T]) -> T {
    let chunks = values.chunks_exact(LANES);
    let remainder = chunks.remainder();

    let sum = chunks.fold([T::ZERO; LANES], |mut acc, chunk| {
        let chunk: [T; LANES] = chunk.try_into().unwrap();
        for i in 0..LANES {
            acc[i] += chunk[i];
        }
        acc
    });

    let remainder: T = remainder.iter().copied().sum();

    let mut reduced = T::ZERO;
    for s in sum.iter().take(LANES) {
        reduced += *s;
    }
    reduced + remainder
}

pub fn fast_f64_sum(values: &[f32]) -> f32 {
    let chunks = values.chunks_exact(LANES);
    let remainder = chunks.remainder();

    let sum = chunks.fold([f64::ZERO; LANES], |mut acc, chunk| {
        let chunk: [f32; LANES] = chunk.try_into().unwrap();
        for i in 0..LANES {
            acc[i] += f64::from(chunk[i]);
        }
        acc
    });

    let remainder: f64 = remainder.iter().fold(f64::ZERO, |acc, b| acc + f64::from(*b));

    let mut reduced: f64 = 0.;
    for s in sum.iter().take(LANES) {
        reduced += *s;
    }
    (reduced + remainder) as f32
}

pub fn naive_sum<T: FloatData<T>>(values: &[T]) -> T {
    values.iter().copied().sum()
}

/// Weighted percentiles: the value at which the cumulated share of weight first reaches each percentile.
pub fn percentiles<T>(v: &[T], sample_weight: &[T], percentiles: &[T]) -> Vec<T>
where
    T: FloatData<T>,
{
    let mut order: Vec<usize> = (0..v.len()).collect();
    order.sort_unstable_by(|a, b| v[*a].partial_cmp(&v[*b]).unwrap());
    let mut wanted = VecDeque::from_iter(percentiles.iter());
    let mut next = *wanted.pop_front().unwrap();
    let mut out = Vec::new();
    let mut share = T::ZERO;
    let mut value = v[order[0]];
    let total = fast_sum(sample_weight);
    for row in order.iter() {
        if v[*row] != value {
            value = v[*row];
        }
        share += sample_weight[*row] / total;
        if next == T::ZERO || share >= next {
            while share >= next {
                out.push(value);
                match wanted.pop_front() {
                    None => return out,
                    Some(p) => next = *p,
                }
            }
        } else if next == T::ONE {
            if let Some(last) = order.last() {
                out.push(v[*last]);
                break;
            }
        }
    }
    out
}

/// 0 for missing, otherwise the number of cuts that are not above v
pub fn map_bin<T: FloatData<T>>(x: &[T], v: &T, missing: &T) -> Option<u16> {
    if *v == *missing || v.is_nan() {
        return Some(0);
    }
    let (mut low, mut high) = (0, x.len());
    while low != high {
        let mid = (low + high) / 2;
        if x[mid] <= *v {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    u16::try_from(low).ok()
}

/// rows whose bin is below the split bin (and missing rows unless missing_right) to the front
pub fn pivot_on_split(index: &mut [usize], feature: &[u16], split_value: u16, missing_right: bool) -> usize {
    let last = index.len() - 1;
    let mut low = 0;
    let mut high = last;
    while low < high {
        while low < last {
            match missing_compare(&split_value, feature[index[low]], missing_right) {
                Ordering::Greater => low += 1,
                _ => break,
            }
        }
        while high > low {
            match missing_compare(&split_value, feature[index[high]], missing_right) {
                Ordering::Greater => break,
                _ => high -= 1,
            }
        }
        if low < high {
            index.swap(low, high);
        }
    }
    low
}

/// missing rows to the front, then rows below the split bin, then the rest
pub fn pivot_on_split_exclude_missing(index: &mut [usize], feature: &[u16], split_value: u16) -> (usize, usize) {
    let last = index.len() - 1;
    let mut low = 0;
    let mut high = last;
    let mut missing = 0;
    while low < high {
        while low < last {
            let bin = feature[index[low]];
            if bin == 0 {
                index.swap(missing, low);
                missing += 1;
            }
            if split_value <= bin {
                break;
            }
            low += 1;
        }
        while high > low {
            let bin = feature[index[high]];
            if bin == 0 {
                index.swap(missing, high);
                missing += 1;
                if missing > low {
                    low = missing;
                }
            }
            if split_value > bin {
                break;
            }
            high -= 1;
        }
        if low < high {
            index.swap(high, low);
        }
    }
    (missing, low)
}

pub fn missing_compare(split_value: &u16, cmp_value: u16, missing_right: bool) -> Ordering {
    match (cmp_value, missing_right) {
        (0, true) => Ordering::Less,
        (0, false) => Ordering::Greater,
        _ => split_value.cmp(&cmp_value),
    }
}

pub fn precision_round(n: f64, precision: i32) -> f64 {
    let scale = 10.0_f64.powi(precision);
    (scale * n).round() / scale
}
