//! C19, C10: what each metric computes, and which direction is better.
use crate::errors::ForustError;
use crate::utils::items_to_strings;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

pub type MetricFn = fn(&[f64], &[f64], &[f64]) -> f64;

/// A number beats NaN, NaN never beats anything; otherwise strictly better in the metric's direction.
pub fn is_comparison_better(value: f64, comparison: f64, maximize: bool) -> bool {
    if comparison.is_nan() {
        return false;
    }
    if value.is_nan() {
        return true;
    }
    (maximize && comparison > value) || (!maximize && comparison < value)
}

#[derive(Debug, Deserialize, Serialize, Clone, Copy)]
pub enum Metric {
    AUC,
    LogLoss,
    RootMeanSquaredLogError,
    RootMeanSquaredError,
}

impl FromStr for Metric {
    type Err = ForustError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s == "AUC" {
            return Ok(Metric::AUC);
        }
        if s == "LogLoss" {
            return Ok(Metric::LogLoss);
        }
        if s == "RootMeanSquaredLogError" {
            return Ok(Metric::RootMeanSquaredLogError);
        }
        if s == "RootMeanSquaredError" {
            return Ok(Metric::RootMeanSquaredError);
        }
        Err(ForustError::ParseString(
            s.to_string(),
            "Metric".to_string(),
            items_to_strings(vec!["AUC", "LogLoss", "RootMeanSquaredLogError", "RootMeanSquaredError"]),
        ))
    }
}

pub fn metric_callables(metric_type: &Metric) -> (MetricFn, bool) {
    match metric_type {
        Metric::RootMeanSquaredError => (RootMeanSquaredErrorMetric::calculate_metric, RootMeanSquaredErrorMetric::maximize()),
        Metric::RootMeanSquaredLogError => {
            (RootMeanSquaredLogErrorMetric::calculate_metric, RootMeanSquaredLogErrorMetric::maximize())
        }
        Metric::LogLoss => (LogLossMetric::calculate_metric, LogLossMetric::maximize()),
        Metric::AUC => (AUCMetric::calculate_metric, AUCMetric::maximize()),
    }
}

pub trait EvaluationMetric {
    fn calculate_metric(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64;
    fn maximize() -> bool;
}

pub struct LogLossMetric {}
impl EvaluationMetric for LogLossMetric {
    fn calculate_metric(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
        log_loss(y, yhat, sample_weight)
    }
    fn maximize() -> bool {
        false
    }
}

pub struct AUCMetric {}
impl EvaluationMetric for AUCMetric {
    fn calculate_metric(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
        roc_auc_score(y, yhat, sample_weight)
    }
    fn maximize() -> bool {
        true
    }
}

pub struct RootMeanSquaredLogErrorMetric {}
impl EvaluationMetric for RootMeanSquaredLogErrorMetric {
    fn calculate_metric(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
        root_mean_squared_log_error(y, yhat, sample_weight)
    }
    fn maximize() -> bool {
        false
    }
}

pub struct RootMeanSquaredErrorMetric {}
impl EvaluationMetric for RootMeanSquaredErrorMetric {
    fn calculate_metric(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
        root_mean_squared_error(y, yhat, sample_weight)
    }
    fn maximize() -> bool {
        false
    }
}

/// weighted mean of a per-row quantity
fn weighted_mean<F: Fn(f64, f64) -> f64>(y: &[f64], yhat: &[f64], sample_weight: &[f64], f: F) -> f64 {
    let mut total = 0.0;
    let mut weights = 0.0;
    for ((y, x), w) in y.iter().zip(yhat).zip(sample_weight) {
        total += w * f(*y, *x);
        weights += w;
    }
    total / weights
}

pub fn log_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
    weighted_mean(y, yhat, sample_weight, |y, x| {
        // yhat is on the log odds scale
        let p = 1.0 / (1.0 + (-x).exp());
        -(y * p.ln() + (1.0 - y) * (1.0 - p).ln())
    })
}

pub fn root_mean_squared_log_error(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
    weighted_mean(y, yhat, sample_weight, |y, x| {
        let d = x.ln_1p() - y.ln_1p();
        d * d
    })
    .sqrt()
}

pub fn root_mean_squared_error(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
    weighted_mean(y, yhat, sample_weight, |y, x| (x - y) * (x - y)).sqrt()
}

fn trapezoid_area(x0: f64, x1: f64, y0: f64, y1: f64) -> f64 {
    let width = (x0 - x1).abs();
    width * 0.5 * (y0 + y1)
}

pub fn roc_auc_score(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
    // rows by falling score
    let mut order: Vec<usize> = Vec::new();
    for i in 0..y.len() {
        order.push(i);
    }
    order.sort_unstable_by(|a, b| yhat[*b].total_cmp(&yhat[*a]));

    let mut area = 0.0;
    let first = order[0];
    let mut tp = y[first] * sample_weight[first];
    let mut fp = (1.0 - y[first]) * sample_weight[first];
    let mut last_tp = 0.0;
    let mut last_fp = 0.0;
    for k in 1..order.len() {
        let (row, before) = (order[k], order[k - 1]);
        // a new threshold only where the score changes
        if yhat[row] != yhat[before] {
            area += trapezoid_area(last_fp, fp, last_tp, tp);
            last_fp = fp;
            last_tp = tp;
        }
        tp += y[row] * sample_weight[row];
        fp += (1.0 - y[row]) * sample_weight[row];
    }
    if tp <= 0.0 || fp <= 0.0 {
        return 0.0 / (0.0 * 0.0); // undefined
    }
    (area + trapezoid_area(last_fp, fp, last_tp, tp)) / (tp * fp)
}
