//! C07 routing, C11 limits, C13 root weight and learning rate, C15 contributions, C17 importance, C24 averages, C27 dump.
use crate::data::{JaggedMatrix, Matrix};
use crate::gradientbooster::GrowPolicy;
use crate::grower::Grower;
use crate::histogram::HistogramMatrix;
use crate::node::{Node, SplittableNode};
use crate::partial_dependence::tree_partial_dependence;
use crate::sampler::SampleMethod;
use crate::splitter::Splitter;
use crate::utils::fast_f64_sum;
use crate::utils::{gain, odds, weight};
use serde::{Deserialize, Serialize};
use std::collections::{BinaryHeap, HashMap, VecDeque};
use std::fmt::{self, Display};

#[derive(Deserialize, Serialize)]
pub struct Tree {
    pub nodes: Vec<Node>,
}

impl Default for Tree {
    fn default() -> Self {
        Tree::new()
    }
}

impl Tree {
    pub fn new() -> Self {
        Tree { nodes: vec![] }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn fit<T: Splitter>(
        &mut self,
        data: &Matrix<u16>,
        mut index: Vec<usize>,
        col_index: &[usize],
        cuts: &JaggedMatrix<f64>,
        grad: &[f32],
        hess: &[f32],
        splitter: &T,
        max_leaves: usize,
        max_depth: usize,
        parallel: bool,
        sample_method: &SampleMethod,
        grow_policy: &GrowPolicy,
    ) {
        // the sums over the rows of the tree
        let sampled = !matches!(sample_method, SampleMethod::None);
        let (g, h) = if sampled {
            let mut g = 0.0;
            let mut h = 0.0;
            for k in 0..index.len() {
                g += grad[index[k]] as f64;
                h += hess[index[k]] as f64;
            }
            (g as f32, h as f32)
        } else {
            (fast_f64_sum(grad), fast_f64_sum(hess))
        };
        let histograms = HistogramMatrix::new(data, cuts, grad, hess, &index, col_index, parallel, sampled);
        let w = weight(&splitter.get_l1(), &splitter.get_l2(), &splitter.get_max_delta_step(), g, h);
        let root = SplittableNode::new(
            0,
            histograms,
            w,
            gain(&splitter.get_l2(), g, h),
            g,
            h,
            0,
            0,
            index.len(),
            f32::NEG_INFINITY,
            f32::INFINITY,
        );
        self.nodes.push(root.as_node(splitter.get_learning_rate()));

        let mut queue: Box<dyn Grower> = match grow_policy {
            GrowPolicy::LossGuide => Box::<BinaryHeap<SplittableNode>>::default(),
            GrowPolicy::DepthWise => Box::<VecDeque<SplittableNode>>::default(),
        };
        queue.add_node(root);
        let mut leaves = 1;
        let mut nodes = 1;
        loop {
            // a split may not take the tree over the limit
            if queue.is_empty() || leaves + splitter.new_leaves_added() > max_leaves {
                break;
            }
            let mut node = queue.get_next_node();
            if node.depth + 1 > max_depth {
                continue;
            }
            let at = node.num;
            let children =
                splitter.split_node(&nodes, &mut node, &mut index, col_index, data, cuts, grad, hess, parallel);
            let n = children.len();
            if n > 0 {
                // one leaf is replaced by n
                leaves = leaves - 1 + n;
                nodes += n;
                self.nodes[at].make_parent_node(node);
                for child in children {
                    self.nodes.push(child.as_node(splitter.get_learning_rate()));
                    if child.is_missing_leaf {
                        continue;
                    }
                    queue.add_node(child);
                }
            }
        }
        splitter.clean_up_splits(self);
    }

    pub fn predict_contributions_row_probability_change(
        &self,
        row: &[f64],
        contribs: &mut [f64],
        missing: &f64,
        current_logodds: f64,
    ) -> f64 {
        let bias = contribs.len() - 1;
        contribs[bias] += odds(current_logodds + f64::from(self.nodes[0].weight_value)) - odds(current_logodds);
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            let node = &self.nodes[at];
            let next = node.get_child_idx(&row[node.split_feature], missing);
            let before = odds(current_logodds + f64::from(node.weight_value));
            let after = odds(current_logodds + f64::from(self.nodes[next].weight_value));
            contribs[node.split_feature] += after - before;
            at = next;
        }
        current_logodds + f64::from(self.nodes[at].weight_value)
    }

    pub fn predict_contributions_row_midpoint_difference(&self, row: &[f64], contribs: &mut [f64], missing: &f64) {
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            let node = &self.nodes[at];
            let next = node.get_child_idx(&row[node.split_feature], missing);
            let neutral = node.has_missing_branch() && next == node.missing_node;
            if !neutral {
                let c = &self.nodes[next];
                let o = &self.nodes[if next == node.left_child { node.right_child } else { node.left_child }];
                let cover = c.hessian_sum + o.hessian_sum;
                let mid = (c.hessian_sum * c.weight_value + o.hessian_sum * o.weight_value) / cover;
                contribs[node.split_feature] += (c.weight_value - mid) as f64;
            }
            at = next;
        }
    }

    pub fn predict_contributions_row_branch_difference(&self, row: &[f64], contribs: &mut [f64], missing: &f64) {
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            let node = &self.nodes[at];
            let next = node.get_child_idx(&row[node.split_feature], missing);
            let neutral = node.has_missing_branch() && next == node.missing_node;
            if !neutral {
                let other = if next == node.left_child { node.right_child } else { node.left_child };
                contribs[node.split_feature] += (self.nodes[next].weight_value - self.nodes[other].weight_value) as f64;
            }
            at = next;
        }
    }

    pub fn predict_contributions_row_mode_difference(&self, row: &[f64], contribs: &mut [f64], missing: &f64) {
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            let node = &self.nodes[at];
            let next = node.get_child_idx(&row[node.split_feature], missing);
            let neutral = node.has_missing_branch() && next == node.missing_node;
            if !neutral {
                let (l, r) = (&self.nodes[node.left_child], &self.nodes[node.right_child]);
                let w = self.nodes[next].weight_value;
                let d = if l.hessian_sum == r.hessian_sum {
                    0.0
                } else if l.hessian_sum > r.hessian_sum {
                    w - l.weight_value
                } else {
                    w - r.weight_value
                };
                contribs[node.split_feature] += d as f64;
            }
            at = next;
        }
    }

    pub fn predict_contributions_row_weight(&self, row: &[f64], contribs: &mut [f64], missing: &f64) {
        let bias = contribs.len() - 1;
        contribs[bias] += f64::from(self.nodes[0].weight_value);
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            let feature = self.nodes[at].split_feature;
            let next = self.nodes[at].get_child_idx(&row[feature], missing);
            contribs[feature] += f64::from(self.nodes[next].weight_value) - f64::from(self.nodes[at].weight_value);
            at = next;
        }
    }

    pub fn predict_contributions_weight(&self, data: &Matrix<f64>, contribs: &mut [f64], missing: &f64) {
        for (row, c) in data.index.iter().zip(contribs.chunks_mut(data.cols + 1)) {
            self.predict_contributions_row_weight(&data.get_row(*row), c, missing);
        }
    }

    pub fn predict_contributions_row_average(
        &self,
        row: &[f64],
        contribs: &mut [f64],
        weights: &[f64],
        missing: &f64,
    ) {
        let bias = contribs.len() - 1;
        contribs[bias] += weights[0];
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            let feature = self.nodes[at].split_feature;
            let next = self.nodes[at].get_child_idx(&row[feature], missing);
            contribs[feature] += weights[next] - weights[at];
            at = next;
        }
    }

    pub fn predict_contributions_average(
        &self,
        data: &Matrix<f64>,
        contribs: &mut [f64],
        weights: &[f64],
        missing: &f64,
    ) {
        for (row, c) in data.index.iter().zip(contribs.chunks_mut(data.cols + 1)) {
            self.predict_contributions_row_average(&data.get_row(*row), c, weights, missing);
        }
    }

    fn predict_leaf(&self, data: &Matrix<f64>, row: usize, missing: &f64) -> &Node {
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            at = self.nodes[at].get_child_idx(data.get(row, self.nodes[at].split_feature), missing);
        }
        &self.nodes[at]
    }

    pub fn predict_row_from_row_slice(&self, row: &[f64], missing: &f64) -> f64 {
        let mut at = 0;
        while !self.nodes[at].is_leaf {
            at = self.nodes[at].get_child_idx(&row[self.nodes[at].split_feature], missing);
        }
        f64::from(self.nodes[at].weight_value)
    }

    fn predict_single_threaded(&self, data: &Matrix<f64>, missing: &f64) -> Vec<f64> {
        let mut out = Vec::new();
        for row in &data.index {
            out.push(f64::from(self.predict_leaf(data, *row, missing).weight_value));
        }
        out
    }

    fn predict_parallel(&self, data: &Matrix<f64>, missing: &f64) -> Vec<f64> {
        let mut out = Vec::new();
        for row in &data.index {
            out.push(f64::from(self.predict_leaf(data, *row, missing).weight_value));
        }
        out
    }

    pub fn predict(&self, data: &Matrix<f64>, parallel: bool, missing: &f64) -> Vec<f64> {
        if !parallel {
            return self.predict_single_threaded(data, missing);
        }
        self.predict_parallel(data, missing)
    }

    pub fn predict_leaf_indices(&self, data: &Matrix<f64>, missing: &f64) -> Vec<usize> {
        let mut out = Vec::new();
        for row in &data.index {
            out.push(self.predict_leaf(data, *row, missing).num);
        }
        out
    }

    pub fn value_partial_dependence(&self, feature: usize, value: f64, missing: &f64) -> f64 {
        let whole = 1.0;
        tree_partial_dependence(self, 0, feature, value, whole, missing)
    }

    fn distribute_node_leaf_weights(&self, i: usize, weights: &mut [f64]) -> f64 {
        let node = &self.nodes[i];
        if node.is_leaf {
            weights[i] = f64::from(node.weight_value);
            return f64::from(node.weight_value);
        }
        let cover = |n: usize| f64::from(self.nodes[n].hessian_sum);
        let l = self.distribute_node_leaf_weights(node.left_child, weights);
        let r = self.distribute_node_leaf_weights(node.right_child, weights);
        let mut total = cover(node.left_child) * l + cover(node.right_child) * r;
        if node.has_missing_branch() {
            let m = self.distribute_node_leaf_weights(node.missing_node, weights);
            total += cover(node.missing_node) * m;
        }
        let mean = total / f64::from(node.hessian_sum);
        weights[i] = mean;
        mean
    }

    pub fn distribute_leaf_weights(&self) -> Vec<f64> {
        let mut weights = Vec::new();
        for _ in 0..self.nodes.len() {
            weights.push(0.0);
        }
        self.distribute_node_leaf_weights(0, &mut weights);
        weights
    }

    pub fn get_average_leaf_weights(&self, i: usize) -> f64 {
        let node = &self.nodes[i];
        if node.is_leaf {
            return f64::from(node.weight_value);
        }
        let part = |n: usize| f64::from(self.nodes[n].hessian_sum) * self.get_average_leaf_weights(n);
        let mut total = part(node.left_child) + part(node.right_child);
        if node.has_missing_branch() {
            total += part(node.missing_node);
        }
        total / f64::from(node.hessian_sum)
    }

    fn calc_feature_node_stats<F>(&self, calc_stat: &F, node: &Node, stats: &mut HashMap<usize, (f32, usize)>)
    where
        F: Fn(&Node) -> f32,
    {
        if !node.is_leaf {
            stats
                .entry(node.split_feature)
                .and_modify(|e| {
                    e.0 += calc_stat(node);
                    e.1 += 1;
                })
                .or_insert((calc_stat(node), 1));
            self.calc_feature_node_stats(calc_stat, &self.nodes[node.left_child], stats);
            self.calc_feature_node_stats(calc_stat, &self.nodes[node.right_child], stats);
            if node.has_missing_branch() {
                self.calc_feature_node_stats(calc_stat, &self.nodes[node.missing_node], stats);
            }
        }
    }

    fn get_node_stats<F>(&self, calc_stat: &F, stats: &mut HashMap<usize, (f32, usize)>)
    where
        F: Fn(&Node) -> f32,
    {
        let root = &self.nodes[0];
        self.calc_feature_node_stats(calc_stat, root, stats);
    }

    pub fn calculate_importance_weight(&self, stats: &mut HashMap<usize, (f32, usize)>) {
        let one = |_: &Node| 1.0;
        self.get_node_stats(&one, stats);
    }

    pub fn calculate_importance_gain(&self, stats: &mut HashMap<usize, (f32, usize)>) {
        let f = |node: &Node| node.split_gain;
        self.get_node_stats(&f, stats);
    }

    pub fn calculate_importance_cover(&self, stats: &mut HashMap<usize, (f32, usize)>) {
        let f = |node: &Node| node.hessian_sum;
        self.get_node_stats(&f, stats);
    }
}

impl Display for Tree {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut stack: Vec<usize> = vec![0];
        let mut text = String::new();
        while let Some(at) = stack.pop() {
            let node = &self.nodes[at];
            text += format!("{}{}\n", "      ".repeat(node.depth).as_str(), node).as_str();
            if !node.is_leaf {
                stack.push(node.right_child);
                stack.push(node.left_child);
                if node.has_missing_branch() {
                    stack.push(node.missing_node);
                }
            }
        }
        write!(f, "{}", text)
    }
}
