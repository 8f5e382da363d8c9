//! C22 (layout), C07/C08 (which value is looked at), C10 (history rows), C21 (columns of a jagged matrix).
use serde::{Deserialize, Serialize};
use std::fmt::{self, Debug, Display};
use std::iter::Sum;
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};
use std::str::FromStr;

pub trait FloatData<T>:
    Mul<Output = T> + Display + Add<Output = T> + Div<Output = T> + Neg<Output = T> + Copy + Debug + PartialEq
    + PartialOrd + AddAssign + Sub<Output = T> + SubAssign + Sum + Send + Sync
{
    const ZERO: T;
    const ONE: T;
    const MIN: T;
    const MAX: T;
    const NAN: T;
    const INFINITY: T;
    fn from_usize(v: usize) -> T;
    fn from_u16(v: u16) -> T;
    fn is_nan(self) -> bool;
    fn ln(self) -> T;
    fn exp(self) -> T;
}

macro_rules! float_data {
    ($t:ty, $n:expr) => {
        impl FloatData<$t> for $t {
            const ZERO: $t = 0.0;
            const ONE: $t = 1.0;
            const MIN: $t = <$t>::MIN;
            const MAX: $t = <$t>::MAX;
            const NAN: $t = <$t>::NAN;
            const INFINITY: $t = <$t>::INFINITY;
            fn from_usize(v: usize) -> $t {
                v as $t
            }
            fn from_u16(v: u16) -> $t {
                v as $t
            }
            fn is_nan(self) -> bool {
                self != self
            }
            fn ln(self) -> $t {
                <$t>::ln(self)
            }
            fn exp(self) -> $t {
                <$t>::exp(self)
            }
        }
    };
}
float_data!(f32, 0);
float_data!(f64, 0);

/// Column major: item (i, j) is at i + j * rows.
pub struct Matrix<'a, T> {
    pub data: &'a [T],
    pub index: Vec<usize>,
    pub rows: usize,
    pub cols: usize,
    stride1: usize,
    stride2: usize,
}

impl<'a, T> Matrix<'a, T> {
    pub fn new(data: &'a [T], rows: usize, cols: usize) -> Self {
        let mut index = Vec::new();
        for i in 0..rows {
            index.push(i);
        }
        Matrix { stride2: 1, stride1: rows, cols, rows, index, data }
    }

    pub fn get(&self, i: usize, j: usize) -> &T {
        &self.data[self.item_index(i, j)]
    }

    fn item_index(&self, i: usize, j: usize) -> usize {
        i * self.stride2 + j * self.stride1
    }

    /// Elements row, row + rows, row + 2 rows, ...
    pub fn get_row_iter(&self, row: usize) -> std::iter::StepBy<std::iter::Skip<std::slice::Iter<'_, T>>> {
        self.data.iter().skip(row).step_by(self.rows)
    }

    pub fn get_col_slice(&self, col: usize, start_row: usize, end_row: usize) -> &[T] {
        &self.data[self.item_index(start_row, col)..self.item_index(end_row, col)]
    }

    pub fn get_col(&self, col: usize) -> &[T] {
        let rows = self.rows;
        self.get_col_slice(col, 0, rows)
    }
}

impl<'a, T> Matrix<'a, T>
where
    T: Copy,
{
    pub fn get_row(&self, row: usize) -> Vec<T> {
        let mut out = Vec::new();
        for x in self.get_row_iter(row) {
            out.push(*x);
        }
        out
    }
}

/// Row major: item (i, j) is at j + i * cols.
#[derive(Debug, Serialize, Deserialize)]
pub struct RowMajorMatrix<T> {
    pub data: Vec<T>,
    pub rows: usize,
    pub cols: usize,
    stride1: usize,
    stride2: usize,
}

impl<T> RowMajorMatrix<T> {
    pub fn new(data: Vec<T>, rows: usize, cols: usize) -> Self {
        RowMajorMatrix { stride1: 1, stride2: cols, cols, rows, data }
    }

    pub fn get(&self, i: usize, j: usize) -> &T {
        let at = self.item_index(i, j);
        &self.data[at]
    }

    fn item_index(&self, i: usize, j: usize) -> usize {
        i * self.stride2 + j * self.stride1
    }

    pub fn append_row(&mut self, items: Vec<T>) {
        let n = items.len();
        assert!(n % self.cols == 0);
        for x in items {
            self.data.push(x);
        }
        self.rows = self.rows + n / self.cols;
    }
}

impl<'a, T> fmt::Display for Matrix<'a, T>
where
    T: FromStr + std::fmt::Display,
    <T as FromStr>::Err: 'static + std::error::Error,
{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut val = String::new();
        for i in 0..self.rows {
            for j in 0..self.cols {
                val.push_str(self.get(i, j).to_string().as_str());
                if j == (self.cols - 1) {
                    val.push('\n');
                } else {
                    val.push(' ');
                }
            }
        }
        write!(f, "{}", val)
    }
}

/// Columns of different length one after the other; column c ends (exclusively) at ends[c].
#[derive(Debug, Deserialize, Serialize)]
pub struct JaggedMatrix<T> {
    pub data: Vec<T>,
    pub ends: Vec<usize>,
    pub cols: usize,
    pub n_records: usize,
}

impl<T> JaggedMatrix<T>
where
    T: Copy,
{
    pub fn from_vecs(vecs: &[Vec<T>]) -> Self {
        let mut out = JaggedMatrix { data: Vec::new(), ends: Vec::new(), cols: vecs.len(), n_records: 0 };
        let mut end = 0;
        for k in 0..vecs.len() {
            end += vecs[k].len();
            out.n_records += end;
            out.ends.push(end);
            out.data.extend(vecs[k].iter().copied());
        }
        out
    }
}

impl<T> JaggedMatrix<T> {
    pub fn new() -> Self {
        JaggedMatrix { n_records: 0, cols: 0, ends: vec![], data: vec![] }
    }

    pub fn get_col(&self, col: usize) -> &[T] {
        assert!(col < self.ends.len());
        let start = if col > 0 { self.ends[col - 1] } else { 0 };
        &self.data[start..self.ends[col]]
    }

    pub fn get_col_mut(&mut self, col: usize) -> &mut [T] {
        assert!(col < self.ends.len());
        let start = if col > 0 { self.ends[col - 1] } else { 0 };
        &mut self.data[start..self.ends[col]]
    }
}

impl<T> Default for JaggedMatrix<T> {
    fn default() -> Self {
        JaggedMatrix::new()
    }
}
