//! C20, C03: row sampling.
use rand::rngs::StdRng;
use rand::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
pub enum SampleMethod {
    None,
    Random,
    Goss,
}

pub trait Sampler {
    fn sample(
        &mut self,
        rng: &mut StdRng,
        index: &[usize],
        grad: &mut [f32],
        hess: &mut [f32],
    ) -> (Vec<usize>, Vec<usize>);
}

pub struct RandomSampler {
    subsample: f32,
}

impl RandomSampler {
    pub fn new(subsample: f32) -> Self {
        Self { subsample }
    }
}

impl Sampler for RandomSampler {
    fn sample(
        &mut self,
        rng: &mut StdRng,
        index: &[usize],
        _grad: &mut [f32],
        _hess: &mut [f32],
    ) -> (Vec<usize>, Vec<usize>) {
        let mut parts = (Vec::new(), Vec::new());
        for k in 0..index.len() {
            let u: f32 = rng.gen_range(0.0..1.0);
            if u < self.subsample {
                parts.0.push(index[k]);
            } else {
                parts.1.push(index[k]);
            }
        }
        parts
    }
}

pub struct GossSampler {
    a: f64,
    b: f64,
}

impl Default for GossSampler {
    fn default() -> Self {
        GossSampler { b: 0.1, a: 0.2 }
    }
}

impl GossSampler {
    pub fn new(a: f64, b: f64) -> Self {
        Self { a, b }
    }
}

impl Sampler for GossSampler {
    fn sample(
        &mut self,
        rng: &mut StdRng,
        index: &[usize],
        grad: &mut [f32],
        hess: &mut [f32],
    ) -> (Vec<usize>, Vec<usize>) {
        let n = index.len();
        let top = (n as f64 * self.a) as usize;
        let others = (n as f64 * self.b) as usize;
        let factor = ((1.0 - self.a) / self.b) as f32;

        // by falling absolute gradient
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_unstable_by(|x, y| grad[*y].abs().total_cmp(&grad[*x].abs()));

        let mut used = order[..top].to_vec();
        let share = others as f64 / (n as f64 - top as f64);
        for k in top..order.len() {
            let row = order[k];
            let u: f64 = rng.gen_range(0.0..1.0);
            if u < share {
                used.push(row);
                hess[row] = factor * hess[row];
                grad[row] = factor * grad[row];
            }
        }
        (used, Vec::new())
    }
}
