//! C19, C18: loss, derivatives, minimiser of the weighted loss.
use crate::metric::Metric;
use serde::{Deserialize, Serialize};

type ObjFn = fn(&[f64], &[f64], &[f64]) -> (Vec<f32>, Vec<f32>);

#[derive(Debug, Deserialize, Serialize)]
pub enum ObjectiveType {
    LogLoss,
    SquaredLoss,
}

pub fn gradient_hessian_callables(objective_type: &ObjectiveType) -> ObjFn {
    if let ObjectiveType::SquaredLoss = objective_type {
        SquaredLoss::calc_grad_hess
    } else {
        LogLoss::calc_grad_hess
    }
}

pub fn calc_init_callables(objective_type: &ObjectiveType) -> fn(&[f64], &[f64]) -> f64 {
    if let ObjectiveType::SquaredLoss = objective_type {
        SquaredLoss::calc_init
    } else {
        LogLoss::calc_init
    }
}

pub trait ObjectiveFunction {
    fn calc_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> Vec<f32>;
    fn calc_grad_hess(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> (Vec<f32>, Vec<f32>);
    fn calc_init(y: &[f64], sample_weight: &[f64]) -> f64;
    fn default_metric() -> Metric;
}

fn sigmoid(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}

#[derive(Default)]
pub struct LogLoss {}

impl ObjectiveFunction for LogLoss {
    fn calc_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> Vec<f32> {
        let mut out = Vec::new();
        for ((y, x), w) in y.iter().zip(yhat).zip(sample_weight) {
            let p = sigmoid(*x);
            let l = -(*w) * (y * p.ln() + (1.0 - y) * (1.0 - p).ln());
            out.push(l as f32);
        }
        out
    }

    fn calc_grad_hess(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> (Vec<f32>, Vec<f32>) {
        let mut g = Vec::new();
        let mut h = Vec::new();
        for ((y, x), w) in y.iter().zip(yhat).zip(sample_weight) {
            let p = sigmoid(*x);
            g.push((w * (p - y)) as f32);
            h.push((w * p * (1.0 - p)) as f32);
        }
        (g, h)
    }

    /// log odds of the weighted mean
    fn calc_init(y: &[f64], sample_weight: &[f64]) -> f64 {
        let positive: f64 = (0..y.len()).map(|i| y[i] * sample_weight[i]).sum();
        let total: f64 = (0..y.len()).map(|i| sample_weight[i]).sum();
        (positive / (total - positive)).ln()
    }

    fn default_metric() -> Metric {
        Metric::LogLoss
    }
}

#[derive(Default)]
pub struct SquaredLoss {}

impl ObjectiveFunction for SquaredLoss {
    fn calc_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> Vec<f32> {
        let mut out = Vec::new();
        for ((y, x), w) in y.iter().zip(yhat).zip(sample_weight) {
            out.push((w * (x - y) * (x - y)) as f32);
        }
        out
    }

    fn calc_grad_hess(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> (Vec<f32>, Vec<f32>) {
        let mut g = Vec::new();
        let mut h = Vec::new();
        for ((y, x), w) in y.iter().zip(yhat).zip(sample_weight) {
            g.push((w * (x - y)) as f32);
            h.push(*w as f32);
        }
        (g, h)
    }

    fn calc_init(y: &[f64], sample_weight: &[f64]) -> f64 {
        let sum: f64 = (0..y.len()).map(|i| y[i] * sample_weight[i]).sum();
        let total: f64 = (0..y.len()).map(|i| sample_weight[i]).sum();
        sum / total
    }

    fn default_metric() -> Metric {
        Metric::RootMeanSquaredLogError
    }
}
