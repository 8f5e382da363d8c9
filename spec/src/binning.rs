//! C08: bin order agrees with value order, missing values have bin 0. C18: cuts are weighted percentiles.
use crate::data::{FloatData, JaggedMatrix, Matrix};
use crate::errors::ForustError;
use crate::utils::{is_missing, map_bin, percentiles};

fn percentiles_or_value<T>(v: &[T], sample_weight: &[T], pcts: &[T]) -> Vec<T>
where
    T: FloatData<T>,
{
    let mut unique = v.to_vec();
    unique.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
    unique.dedup();
    if unique.len() > pcts.len() + 1 {
        return percentiles(v, sample_weight, pcts);
    }
    unique
}

pub struct BinnedData<T> {
    pub binned_data: Vec<u16>,
    pub cuts: JaggedMatrix<T>,
    pub nunique: Vec<usize>,
}

fn bin_matrix_from_cuts<T: FloatData<T>>(data: &Matrix<T>, cuts: &JaggedMatrix<T>, missing: &T) -> Vec<u16> {
    let mut out = Vec::new();
    for k in 0..data.data.len() {
        // column major: element k belongs to column k / rows
        let column_cuts = cuts.get_col(k / data.rows);
        out.push(map_bin(column_cuts, &data.data[k], missing).unwrap());
    }
    out
}

pub fn bin_matrix(
    data: &Matrix<f64>,
    sample_weight: &[f64],
    nbins: u16,
    missing: f64,
) -> Result<BinnedData<f64>, ForustError> {
    let pcts: Vec<f64> = (0..nbins).map(|i| f64::from_u16(i) / f64::from_u16(nbins)).collect();
    let mut cuts = JaggedMatrix::new();
    let mut nunique = Vec::new();
    for col in 0..data.cols {
        let column = data.get_col(col);
        let mut values = Vec::new();
        let mut weights = Vec::new();
        for (v, w) in column.iter().zip(sample_weight) {
            if is_missing(v, &missing) {
                continue;
            }
            values.push(*v);
            weights.push(*w);
        }
        let mut c = percentiles_or_value(&values, &weights, &pcts);
        c.push(f64::MAX);
        c.dedup();
        nunique.push(c.len());
        let end = match cuts.ends.last() {
            None => c.len(),
            Some(e) => *e + c.len(),
        };
        cuts.ends.push(end);
        cuts.data.extend(c);
        cuts.cols = cuts.ends.len();
        cuts.n_records = cuts.ends.iter().sum();
    }
    Ok(BinnedData { nunique, binned_data: bin_matrix_from_cuts(data, &cuts, &missing), cuts })
}
