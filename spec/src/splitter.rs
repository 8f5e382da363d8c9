//! C08 partition, C11 leaves per split, C12 admissibility, C13 weights, C14 monotonicity, C16 missing, C21 histograms, C25.
use crate::constraints::{Constraint, ConstraintMap};
use crate::data::{JaggedMatrix, Matrix};
use crate::gradientbooster::MissingNodeTreatment;
use crate::histogram::HistogramMatrix;
use crate::node::SplittableNode;
use crate::tree::Tree;
use crate::utils::{
    between, bound_to_parent, constrained_weight, cull_gain, gain_given_weight, pivot_on_split,
    pivot_on_split_exclude_missing,
};
use std::collections::HashSet;

#[derive(Debug)]
pub struct SplitInfo {
    pub split_gain: f32,
    pub split_feature: usize,
    pub split_value: f64,
    pub split_bin: u16,
    pub left_node: NodeInfo,
    pub right_node: NodeInfo,
    pub missing_node: MissingInfo,
}

#[derive(Debug)]
pub struct NodeInfo {
    pub grad: f32,
    pub gain: f32,
    pub cover: f32,
    pub weight: f32,
    pub bounds: (f32, f32),
}

#[derive(Debug)]
pub enum MissingInfo {
    Left,
    Right,
    Leaf(NodeInfo),
    Branch(NodeInfo),
}

pub trait Splitter {
    fn new_leaves_added(&self) -> usize {
        1
    }
    fn get_constraint(&self, feature: &usize) -> Option<&Constraint>;
    fn get_gamma(&self) -> f32;
    fn get_l1(&self) -> f32;
    fn get_l2(&self) -> f32;
    fn get_max_delta_step(&self) -> f32;
    fn get_learning_rate(&self) -> f32;
    fn clean_up_splits(&self, _tree: &mut Tree) {}

    /// the first split of largest gain over all considered features, if any has a positive gain
    fn best_split(&self, node: &SplittableNode, col_index: &[usize]) -> Option<SplitInfo> {
        let mut best = None;
        let mut best_gain = 0.0;
        for position in 0..col_index.len() {
            if let Some(candidate) = self.best_feature_split(node, col_index[position], position) {
                if candidate.split_gain > best_gain {
                    best_gain = candidate.split_gain;
                    best = Some(candidate);
                }
            }
        }
        best
    }

    #[allow(clippy::too_many_arguments)]
    fn evaluate_split(
        &self,
        left_gradient: f32,
        left_hessian: f32,
        right_gradient: f32,
        right_hessian: f32,
        missing_gradient: f32,
        missing_hessian: f32,
        lower_bound: f32,
        upper_bound: f32,
        parent_weight: f32,
        constraint: Option<&Constraint>,
    ) -> Option<(NodeInfo, NodeInfo, MissingInfo)>;

    fn best_feature_split(&self, node: &SplittableNode, feature: usize, idx: usize) -> Option<SplitInfo> {
        let bins = node.histograms.0.get_col(idx);
        let missing = &bins[0];
        let constraint = self.get_constraint(&feature);
        let mut best: Option<SplitInfo> = None;
        let mut best_gain: Option<f32> = None;
        // sums over the bins to the left of the candidate
        let mut gradient = 0.0;
        let mut hessian = 0.0;
        for bin in 1..bins.len() {
            let (left_gradient, left_hessian) = (gradient, hessian);
            gradient += bins[bin].gradient_sum;
            hessian += bins[bin].hessian_sum;
            let evaluated = self.evaluate_split(
                left_gradient,
                left_hessian,
                node.gradient_sum - missing.gradient_sum - left_gradient,
                node.hessian_sum - missing.hessian_sum - left_hessian,
                missing.gradient_sum,
                missing.hessian_sum,
                node.lower_bound,
                node.upper_bound,
                node.weight_value,
                constraint,
            );
            if let Some((mut left, mut right, missing_info)) = evaluated {
                let improvement = node.get_split_gain(&left, &right, &missing_info, self.get_gamma());
                let mut split_gain = cull_gain(improvement, left.weight, right.weight, constraint);
                if split_gain <= 0.0 {
                    continue;
                }
                let middle = (right.weight + left.weight) / 2.0;
                let (lo, hi) = (node.lower_bound, node.upper_bound);
                match constraint {
                    Some(Constraint::Positive) => {
                        left.bounds = (lo, middle);
                        right.bounds = (middle, hi);
                    }
                    Some(Constraint::Negative) => {
                        left.bounds = (middle, hi);
                        right.bounds = (lo, middle);
                    }
                    Some(Constraint::Unconstrained) | None => {
                        left.bounds = (lo, hi);
                        right.bounds = (lo, hi);
                    }
                }
                if split_gain.is_nan() {
                    split_gain = 0.0;
                }
                let better = match best_gain {
                    None => true,
                    Some(g) => split_gain > g,
                };
                if better {
                    best_gain = Some(split_gain);
                    best = Some(SplitInfo {
                        split_gain,
                        split_feature: feature,
                        split_value: bins[bin].cut_value,
                        split_bin: bin as u16,
                        left_node: left,
                        right_node: right,
                        missing_node: missing_info,
                    });
                }
            }
        }
        best
    }

    #[allow(clippy::too_many_arguments)]
    fn handle_split_info(
        &self,
        split_info: SplitInfo,
        n_nodes: &usize,
        node: &mut SplittableNode,
        index: &mut [usize],
        col_index: &[usize],
        data: &Matrix<u16>,
        cuts: &JaggedMatrix<f64>,
        grad: &[f32],
        hess: &[f32],
        parallel: bool,
    ) -> Vec<SplittableNode>;

    #[allow(clippy::too_many_arguments)]
    fn split_node(
        &self,
        n_nodes: &usize,
        node: &mut SplittableNode,
        index: &mut [usize],
        col_index: &[usize],
        data: &Matrix<u16>,
        cuts: &JaggedMatrix<f64>,
        grad: &[f32],
        hess: &[f32],
        parallel: bool,
    ) -> Vec<SplittableNode> {
        if let Some(s) = self.best_split(node, col_index) {
            return self.handle_split_info(s, n_nodes, node, index, col_index, data, cuts, grad, hess, parallel);
        }
        vec![]
    }
}

pub struct MissingBranchSplitter {
    pub l1: f32,
    pub l2: f32,
    pub max_delta_step: f32,
    pub gamma: f32,
    pub min_leaf_weight: f32,
    pub learning_rate: f32,
    pub allow_missing_splits: bool,
    pub constraints_map: ConstraintMap,
    pub terminate_missing_features: HashSet<usize>,
    pub missing_node_treatment: MissingNodeTreatment,
    pub force_children_to_bound_parent: bool,
}

impl MissingBranchSplitter {
    /// cover-weighted mean of the children; a missing leaf is neutral and takes the value of its parent
    pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
        if tree.nodes[node_idx].is_leaf {
            return tree.nodes[node_idx].weight_value as f64;
        }
        let this = tree.nodes[node_idx].num;
        let left = tree.nodes[node_idx].left_child;
        let right = tree.nodes[node_idx].right_child;
        let missing = tree.nodes[node_idx].missing_node;
        let right_cover = tree.nodes[right].hessian_sum as f64;
        let right_mean = Self::update_average_missing_nodes(tree, right);
        let left_cover = tree.nodes[left].hessian_sum as f64;
        let left_mean = Self::update_average_missing_nodes(tree, left);
        let mut total = right_mean * right_cover + left_mean * left_cover;
        let mut cover = right_cover + left_cover;
        let neutral = tree.nodes[missing].is_leaf;
        if !neutral {
            let missing_cover = tree.nodes[missing].hessian_sum as f64;
            let missing_mean = Self::update_average_missing_nodes(tree, missing);
            total += missing_mean * missing_cover;
            cover += missing_cover;
        }
        let mean = total / cover;
        if this < tree.nodes.len() {
            tree.nodes[this].weight_value = mean as f32;
        }
        if neutral {
            if missing < tree.nodes.len() {
                tree.nodes[missing].weight_value = mean as f32;
            }
        }
        mean
    }
}

impl Splitter for MissingBranchSplitter {
    fn new_leaves_added(&self) -> usize {
        2
    }

    fn clean_up_splits(&self, tree: &mut Tree) {
        match self.missing_node_treatment {
            MissingNodeTreatment::AverageLeafWeight => {
                Self::update_average_missing_nodes(tree, 0);
            }
            _ => {}
        }
    }
    fn get_constraint(&self, feature: &usize) -> Option<&Constraint> {
        self.constraints_map.get(feature)
    }
    fn get_gamma(&self) -> f32 {
        self.gamma
    }
    fn get_l1(&self) -> f32 {
        self.l1
    }
    fn get_l2(&self) -> f32 {
        self.l2
    }
    fn get_max_delta_step(&self) -> f32 {
        self.max_delta_step
    }
    fn get_learning_rate(&self) -> f32 {
        self.learning_rate
    }

    fn evaluate_split(
        &self,
        left_gradient: f32,
        left_hessian: f32,
        right_gradient: f32,
        right_hessian: f32,
        missing_gradient: f32,
        missing_hessian: f32,
        lower_bound: f32,
        upper_bound: f32,
        parent_weight: f32,
        constraint: Option<&Constraint>,
    ) -> Option<(NodeInfo, NodeInfo, MissingInfo)> {
        let w = |g: f32, h: f32| {
            constrained_weight(&self.l1, &self.l2, &self.max_delta_step, g, h, lower_bound, upper_bound, constraint)
        };
        // both sides need data and the minimum leaf weight
        if left_gradient == 0.0 && left_hessian == 0.0 {
            return None;
        }
        if right_gradient == 0.0 && right_hessian == 0.0 {
            return None;
        }
        if left_hessian < self.min_leaf_weight || right_hessian < self.min_leaf_weight {
            return None;
        }
        let mut left_weight = w(left_gradient, left_hessian);
        let mut right_weight = w(right_gradient, right_hessian);
        if self.force_children_to_bound_parent {
            let bounded = bound_to_parent(parent_weight, left_weight, right_weight);
            left_weight = bounded.0;
            right_weight = bounded.1;
            assert!(between(lower_bound, upper_bound, left_weight));
            assert!(between(lower_bound, upper_bound, right_weight));
        }

        let missing_weight = match self.missing_node_treatment {
            MissingNodeTreatment::None => {
                if missing_gradient == 0.0 || missing_hessian == 0.0 {
                    parent_weight
                } else {
                    w(missing_gradient, missing_hessian)
                }
            }
            MissingNodeTreatment::AssignToParent => {
                w(left_gradient + right_gradient + missing_gradient, left_hessian + right_hessian + missing_hessian)
            }
            MissingNodeTreatment::AverageLeafWeight | MissingNodeTreatment::AverageNodeWeight => {
                (left_weight * left_hessian + right_weight * right_hessian) / (left_hessian + right_hessian)
            }
        };
        let m = NodeInfo {
            bounds: (lower_bound, upper_bound),
            weight: missing_weight,
            cover: missing_hessian,
            grad: missing_gradient,
            gain: gain_given_weight(&self.l2, missing_gradient, missing_hessian, missing_weight),
        };
        let empty = missing_gradient == 0.0 && missing_hessian == 0.0;
        let unbounded = (f32::NEG_INFINITY, f32::INFINITY);
        Some((
            NodeInfo {
                bounds: unbounded,
                weight: left_weight,
                cover: left_hessian,
                grad: left_gradient,
                gain: gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight),
            },
            NodeInfo {
                bounds: unbounded,
                weight: right_weight,
                cover: right_hessian,
                grad: right_gradient,
                gain: gain_given_weight(&self.l2, right_gradient, right_hessian, right_weight),
            },
            if empty || !self.allow_missing_splits { MissingInfo::Leaf(m) } else { MissingInfo::Branch(m) },
        ))
    }

    fn handle_split_info(
        &self,
        split_info: SplitInfo,
        n_nodes: &usize,
        node: &mut SplittableNode,
        index: &mut [usize],
        col_index: &[usize],
        data: &Matrix<u16>,
        cuts: &JaggedMatrix<f64>,
        grad: &[f32],
        hess: &[f32],
        parallel: bool,
    ) -> Vec<SplittableNode> {
        let first = *n_nodes;
        node.update_children(first, first + 1, first + 2, &split_info);

        // rows: missing, then left, then right
        let (m, s) = pivot_on_split_exclude_missing(
            &mut index[node.start_idx..node.stop_idx],
            data.get_col(split_info.split_feature),
            split_info.split_bin,
        );
        let (start, stop) = (node.start_idx, node.stop_idx);
        let total = stop - start;
        let n_right = total - s;
        let n_left = total - n_right - m;
        let n_missing = total - (n_right + n_left);
        let (m, s) = (m + start, s + start);

        let (mut missing_ends, mut missing_info) = match split_info.missing_node {
            MissingInfo::Leaf(i) => (true, i),
            MissingInfo::Branch(i) => {
                (self.terminate_missing_features.contains(&split_info.split_feature), i)
            }
            _ => unreachable!(),
        };
        if n_missing == 0 {
            missing_ends = true;
        }
        if let MissingNodeTreatment::AssignToParent = self.missing_node_treatment {
            missing_info.weight = node.weight_value;
        }

        // the histogram of the largest child is the parent's less those of its siblings
        let largest = match [n_missing, n_left, n_right].iter().enumerate().max_by(|(_, i), (_, j)| i.cmp(j)) {
            Some((i, _)) => i,
            None => 0,
        };
        let direct = |rows: &[usize]| HistogramMatrix::new(data, cuts, grad, hess, rows, col_index, parallel, true);
        let parent = &node.histograms;
        let (mh, lh, rh) = if n_missing == 0 {
            if largest == 1 {
                let r = direct(&index[s..stop]);
                (HistogramMatrix::empty(), HistogramMatrix::from_parent_child(parent, &r), r)
            } else {
                let l = direct(&index[m..s]);
                let r = HistogramMatrix::from_parent_child(parent, &l);
                (HistogramMatrix::empty(), l, r)
            }
        } else if largest == 0 {
            let l = direct(&index[m..s]);
            let r = direct(&index[s..stop]);
            (HistogramMatrix::from_parent_two_children(parent, &l, &r), l, r)
        } else if largest == 1 {
            let x = direct(&index[start..m]);
            let r = direct(&index[s..stop]);
            let l = HistogramMatrix::from_parent_two_children(parent, &x, &r);
            (x, l, r)
        } else {
            let x = direct(&index[start..m]);
            let l = direct(&index[m..s]);
            let r = HistogramMatrix::from_parent_two_children(parent, &x, &l);
            (x, l, r)
        };
        let depth = node.depth + 1;
        let mut missing_node = SplittableNode::from_node_info(first, mh, depth, start, m, missing_info);
        missing_node.is_missing_leaf = missing_ends;
        vec![
            missing_node,
            SplittableNode::from_node_info(first + 1, lh, depth, m, s, split_info.left_node),
            SplittableNode::from_node_info(first + 2, rh, depth, s, stop, split_info.right_node),
        ]
    }
}

pub struct MissingImputerSplitter {
    pub l1: f32,
    pub l2: f32,
    pub max_delta_step: f32,
    pub gamma: f32,
    pub min_leaf_weight: f32,
    pub learning_rate: f32,
    pub allow_missing_splits: bool,
    pub constraints_map: ConstraintMap,
}

impl MissingImputerSplitter {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        l1: f32,
        l2: f32,
        max_delta_step: f32,
        gamma: f32,
        min_leaf_weight: f32,
        learning_rate: f32,
        allow_missing_splits: bool,
        constraints_map: ConstraintMap,
    ) -> Self {
        MissingImputerSplitter {
            constraints_map,
            allow_missing_splits,
            learning_rate,
            min_leaf_weight,
            gamma,
            max_delta_step,
            l2,
            l1,
        }
    }
}

impl Splitter for MissingImputerSplitter {
    fn get_constraint(&self, feature: &usize) -> Option<&Constraint> {
        self.constraints_map.get(feature)
    }
    fn get_gamma(&self) -> f32 {
        self.gamma
    }
    fn get_l1(&self) -> f32 {
        self.l1
    }
    fn get_l2(&self) -> f32 {
        self.l2
    }
    fn get_max_delta_step(&self) -> f32 {
        self.max_delta_step
    }
    fn get_learning_rate(&self) -> f32 {
        self.learning_rate
    }

    #[allow(clippy::too_many_arguments)]
    fn evaluate_split(
        &self,
        left_gradient: f32,
        left_hessian: f32,
        right_gradient: f32,
        right_hessian: f32,
        missing_gradient: f32,
        missing_hessian: f32,
        lower_bound: f32,
        upper_bound: f32,
        _parent_weight: f32,
        constraint: Option<&Constraint>,
    ) -> Option<(NodeInfo, NodeInfo, MissingInfo)> {
        let w = |g: f32, h: f32| {
            constrained_weight(&self.l1, &self.l2, &self.max_delta_step, g, h, lower_bound, upper_bound, constraint)
        };
        let too_light = |l: f32, r: f32| l < self.min_leaf_weight || r < self.min_leaf_weight;
        if !self.allow_missing_splits {
            // splits that only separate out the missing values are not wanted
            let left_empty = left_gradient == 0.0 && left_hessian == 0.0;
            let right_empty = right_gradient == 0.0 && right_hessian == 0.0;
            if left_empty || right_empty || too_light(left_hessian, right_hessian) {
                return None;
            }
        }
        let lw = w(left_gradient, left_hessian);
        let rw = w(right_gradient, right_hessian);
        let lg = gain_given_weight(&self.l2, left_gradient, left_hessian, lw);
        let rg = gain_given_weight(&self.l2, right_gradient, right_hessian, rw);
        let mut left = NodeInfo {
            grad: left_gradient,
            gain: lg,
            cover: left_hessian,
            weight: lw,
            bounds: (f32::NEG_INFINITY, f32::INFINITY),
        };
        let mut right = NodeInfo {
            grad: right_gradient,
            gain: rg,
            cover: right_hessian,
            weight: rw,
            bounds: (f32::NEG_INFINITY, f32::INFINITY),
        };
        let mut direction = MissingInfo::Right;
        let no_missing = missing_gradient == 0.0 && missing_hessian == 0.0;
        if !no_missing {
            // each side with the missing rows added
            let (gl, hl) = (left_gradient + missing_gradient, left_hessian + missing_hessian);
            let (gr, hr) = (right_gradient + missing_gradient, right_hessian + missing_hessian);
            let lw2 = w(gl, hl);
            let rw2 = w(gr, hr);
            let lg2 = cull_gain(gain_given_weight(&self.l2, gl, hl, lw2), lw2, rw, constraint);
            let rg2 = cull_gain(gain_given_weight(&self.l2, gr, hr, rw2), lw, rw2, constraint);
            if lg2 - lg > rg2 - rg {
                direction = MissingInfo::Left;
                left.grad = gl;
                left.cover = hl;
                left.weight = lw2;
                left.gain = lg2;
            } else {
                right.grad = gr;
                right.cover = hr;
                right.weight = rw2;
                right.gain = rg2;
            }
        }
        if too_light(left.cover, right.cover) {
            None
        } else {
            Some((left, right, direction))
        }
    }

    fn handle_split_info(
        &self,
        split_info: SplitInfo,
        n_nodes: &usize,
        node: &mut SplittableNode,
        index: &mut [usize],
        col_index: &[usize],
        data: &Matrix<u16>,
        cuts: &JaggedMatrix<f64>,
        grad: &[f32],
        hess: &[f32],
        parallel: bool,
    ) -> Vec<SplittableNode> {
        let left_child = *n_nodes;
        let missing_right = match split_info.missing_node {
            MissingInfo::Right => true,
            MissingInfo::Left => false,
            _ => unreachable!(),
        };
        let (start, stop) = (node.start_idx, node.stop_idx);
        let n_left = pivot_on_split(
            &mut index[start..stop],
            data.get_col(split_info.split_feature),
            split_info.split_bin,
            missing_right,
        );
        let n_right = (stop - start) - n_left;
        let split = start + n_left;
        let direct = |rows: &[usize]| HistogramMatrix::new(data, cuts, grad, hess, rows, col_index, parallel, true);
        let (lh, rh);
        if n_left < n_right {
            lh = direct(&index[start..split]);
            rh = HistogramMatrix::from_parent_child(&node.histograms, &lh);
        } else {
            rh = direct(&index[split..stop]);
            lh = HistogramMatrix::from_parent_child(&node.histograms, &rh);
        }
        node.update_children(
            left_child + (if missing_right { 1 } else { 0 }),
            left_child,
            left_child + 1,
            &split_info,
        );
        let depth = node.depth + 1;
        vec![
            SplittableNode::from_node_info(left_child, lh, depth, start, split, split_info.left_node),
            SplittableNode::from_node_info(left_child + 1, rh, depth, split, stop, split_info.right_node),
        ]
    }
}
