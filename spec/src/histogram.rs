//! C21: every histogram holds the sums over exactly its own rows. C02: no dependence on the schedule.
use crate::data::{JaggedMatrix, Matrix};
use serde::{Deserialize, Serialize};

#[derive(Debug, Deserialize, Serialize, Clone)]
pub struct Bin<T> {
    pub gradient_sum: T,
    pub hessian_sum: T,
    pub cut_value: f64,
}

impl Bin<f32> {
    pub fn new_f32(cut_value: f64) -> Self {
        Bin { cut_value, gradient_sum: 0.0, hessian_sum: 0.0 }
    }

    pub fn from_parent_child(root_bin: &Bin<f32>, child_bin: &Bin<f32>) -> Self {
        let mut b = root_bin.clone();
        b.hessian_sum -= child_bin.hessian_sum;
        b.gradient_sum -= child_bin.gradient_sum;
        b
    }

    pub fn from_parent_two_children(
        root_bin: &Bin<f32>,
        first_child_bin: &Bin<f32>,
        second_child_bin: &Bin<f32>,
    ) -> Self {
        Bin {
            cut_value: root_bin.cut_value,
            hessian_sum: root_bin.hessian_sum - first_child_bin.hessian_sum - second_child_bin.hessian_sum,
            gradient_sum: root_bin.gradient_sum - first_child_bin.gradient_sum - second_child_bin.gradient_sum,
        }
    }
}

impl Bin<f64> {
    pub fn new_f64(cut_value: f64) -> Self {
        Bin { cut_value, gradient_sum: 0.0, hessian_sum: 0.0 }
    }

    pub fn as_f32_bin(&self) -> Bin<f32> {
        let (g, h) = (self.gradient_sum as f32, self.hessian_sum as f32);
        Bin { cut_value: self.cut_value, gradient_sum: g, hessian_sum: h }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct HistogramMatrix(pub JaggedMatrix<Bin<f32>>);

/// Bin 0 is the bin of the missing values, bin k (k > 0) starts at cuts[k - 1]; the last cut has no bin.
pub fn create_feature_histogram(
    feature: &[u16],
    cuts: &[f64],
    sorted_grad: &[f32],
    sorted_hess: &[f32],
    index: &[usize],
) -> Vec<Bin<f32>> {
    let mut histogram: Vec<Bin<f64>> = vec![Bin::new_f64(f64::NAN)];
    let n = cuts.len() - 1;
    for k in 0..n {
        histogram.push(Bin::new_f64(cuts[k]));
    }
    for ((i, g), h) in index.iter().zip(sorted_grad.iter()).zip(sorted_hess.iter()) {
        let at = feature[*i] as usize;
        if at < histogram.len() {
            histogram[at].gradient_sum += *g as f64;
            histogram[at].hessian_sum += *h as f64;
        }
    }
    histogram.into_iter().map(|b| b.as_f32_bin()).collect()
}

impl HistogramMatrix {
    pub fn empty() -> Self {
        HistogramMatrix(JaggedMatrix { n_records: 0, cols: 0, ends: vec![], data: vec![] })
    }

    #[allow(clippy::too_many_arguments)]
    pub fn new(
        data: &Matrix<u16>,
        cuts: &JaggedMatrix<f64>,
        grad: &[f32],
        hess: &[f32],
        index: &[usize],
        col_index: &[usize],
        parallel: bool,
        sort: bool,
    ) -> Self {
        let _ = parallel; // the result may not depend on it
        // gradient and hessian in the order of the rows of the node
        let g: Vec<f32> = if sort { index.iter().map(|i| grad[*i]).collect() } else { grad.to_vec() };
        let h: Vec<f32> = if sort { index.iter().map(|i| hess[*i]).collect() } else { hess.to_vec() };

        let mut histograms: Vec<Bin<f32>> = Vec::new();
        for col in col_index {
            histograms.extend(create_feature_histogram(data.get_col(*col), cuts.get_col(*col), &g, &h, index));
        }

        let mut ends: Vec<usize> = cuts.ends.clone();
        let mut n_records = cuts.n_records;
        if col_index.len() != data.cols {
            let mut end = 0;
            ends = Vec::new();
            for col in col_index {
                end += cuts.get_col(*col).len();
                ends.push(end);
            }
            n_records = ends.iter().sum();
        }
        HistogramMatrix(JaggedMatrix { cols: col_index.len(), n_records, ends, data: histograms })
    }

    pub fn from_parent_child(root_histogram: &HistogramMatrix, child_histogram: &HistogramMatrix) -> Self {
        let mut bins = Vec::new();
        for (r, c) in root_histogram.0.data.iter().zip(child_histogram.0.data.iter()) {
            bins.push(Bin::from_parent_child(r, c));
        }
        let like = &child_histogram.0;
        HistogramMatrix(JaggedMatrix { n_records: like.n_records, cols: like.cols, ends: like.ends.clone(), data: bins })
    }

    pub fn from_parent_two_children(
        root_histogram: &HistogramMatrix,
        first_child_histogram: &HistogramMatrix,
        second_child_histogram: &HistogramMatrix,
    ) -> Self {
        let (a, b) = (&first_child_histogram.0, &second_child_histogram.0);
        let bins = root_histogram
            .0
            .data
            .iter()
            .zip(a.data.iter().zip(b.data.iter()))
            .map(|(r, (x, y))| Bin::from_parent_two_children(r, x, y))
            .collect();
        HistogramMatrix(JaggedMatrix { n_records: a.n_records, cols: a.cols, ends: a.ends.clone(), data: bins })
    }
}
