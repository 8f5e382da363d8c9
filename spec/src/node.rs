//! C07 routing, C12 gain bookkeeping, C13 learning rate, C14 bounds, C27 text form of a node.
use crate::histogram::HistogramMatrix;
use crate::splitter::{MissingInfo, NodeInfo, SplitInfo};
use crate::utils::is_missing;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::fmt::{self, Debug};

#[derive(Debug, Deserialize, Serialize)]
pub struct SplittableNode {
    pub num: usize,
    pub histograms: HistogramMatrix,
    pub weight_value: f32,
    pub gain_value: f32,
    pub gradient_sum: f32,
    pub hessian_sum: f32,
    pub depth: usize,
    pub split_value: f64,
    pub split_feature: usize,
    pub split_gain: f32,
    pub missing_node: usize,
    pub left_child: usize,
    pub right_child: usize,
    pub start_idx: usize,
    pub stop_idx: usize,
    pub lower_bound: f32,
    pub upper_bound: f32,
    pub is_leaf: bool,
    pub is_missing_leaf: bool,
}

#[derive(Deserialize, Serialize)]
pub struct Node {
    pub num: usize,
    pub weight_value: f32,
    pub hessian_sum: f32,
    pub depth: usize,
    pub split_value: f64,
    pub split_feature: usize,
    pub split_gain: f32,
    pub missing_node: usize,
    pub left_child: usize,
    pub right_child: usize,
    pub is_leaf: bool,
}

impl Ord for SplittableNode {
    fn cmp(&self, other: &Self) -> Ordering {
        let (mine, theirs) = (self.gain_value, other.gain_value);
        mine.total_cmp(&theirs)
    }
}

impl PartialOrd for SplittableNode {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        let o = self.cmp(other);
        Some(o)
    }
}

impl PartialEq for SplittableNode {
    fn eq(&self, other: &Self) -> bool {
        other.gain_value == self.gain_value
    }
}

impl Eq for SplittableNode {}

impl Node {
    pub fn make_parent_node(&mut self, split_node: SplittableNode) {
        self.left_child = split_node.left_child;
        self.right_child = split_node.right_child;
        self.missing_node = split_node.missing_node;
        self.split_feature = split_node.split_feature;
        self.split_value = split_node.split_value;
        self.split_gain = split_node.split_gain;
        self.is_leaf = false;
    }

    /// missing -> missing branch, strictly smaller -> left, otherwise right
    pub fn get_child_idx(&self, v: &f64, missing: &f64) -> usize {
        if is_missing(v, missing) {
            return self.missing_node;
        }
        if *v >= self.split_value {
            return self.right_child;
        }
        if *v < self.split_value {
            return self.left_child;
        }
        self.right_child
    }

    pub fn has_missing_branch(&self) -> bool {
        let m = self.missing_node;
        !(m == self.left_child || m == self.right_child)
    }
}

impl SplittableNode {
    pub fn from_node_info(
        num: usize,
        histograms: HistogramMatrix,
        depth: usize,
        start_idx: usize,
        stop_idx: usize,
        node_info: NodeInfo,
    ) -> Self {
        let (lo, hi) = node_info.bounds;
        // the node described by node_info: its weight, gain, gradient sum, hessian sum (cover) and bounds
        SplittableNode {
            is_leaf: true,
            is_missing_leaf: false,
            num,
            depth,
            start_idx,
            stop_idx,
            histograms,
            gradient_sum: node_info.grad,
            hessian_sum: node_info.cover,
            gain_value: node_info.gain,
            weight_value: node_info.weight,
            lower_bound: lo,
            upper_bound: hi,
            split_value: 0.0,
            split_gain: 0.0,
            split_feature: 0,
            missing_node: 0,
            left_child: 0,
            right_child: 0,
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn new(
        num: usize,
        histograms: HistogramMatrix,
        weight_value: f32,
        gain_value: f32,
        gradient_sum: f32,
        hessian_sum: f32,
        depth: usize,
        start_idx: usize,
        stop_idx: usize,
        lower_bound: f32,
        upper_bound: f32,
    ) -> Self {
        SplittableNode {
            is_leaf: true,
            is_missing_leaf: false,
            split_value: 0.0,
            split_gain: 0.0,
            split_feature: 0,
            missing_node: 0,
            left_child: 0,
            right_child: 0,
            upper_bound,
            lower_bound,
            stop_idx,
            start_idx,
            depth,
            hessian_sum,
            gradient_sum,
            gain_value,
            weight_value,
            histograms,
            num,
        }
    }

    pub fn update_children(
        &mut self,
        missing_child: usize,
        left_child: usize,
        right_child: usize,
        split_info: &SplitInfo,
    ) {
        // recorded gain: the improvement over the parent, without the gamma penalty
        let g = self.get_split_gain(&split_info.left_node, &split_info.right_node, &split_info.missing_node, 0.0);
        self.is_leaf = false;
        self.split_gain = g;
        self.split_value = split_info.split_value;
        self.split_feature = split_info.split_feature;
        self.missing_node = missing_child;
        self.right_child = right_child;
        self.left_child = left_child;
    }

    pub fn get_split_gain(
        &self,
        left_node_info: &NodeInfo,
        right_node_info: &NodeInfo,
        missing_node_info: &MissingInfo,
        gamma: f32,
    ) -> f32 {
        let mut children = right_node_info.gain + left_node_info.gain;
        if let MissingInfo::Leaf(m) = missing_node_info {
            children += m.gain;
        }
        if let MissingInfo::Branch(m) = missing_node_info {
            children += m.gain;
        }
        children - (self.gain_value + gamma)
    }

    pub fn as_node(&self, learning_rate: f32) -> Node {
        Node {
            is_leaf: self.is_leaf,
            left_child: self.left_child,
            right_child: self.right_child,
            missing_node: self.missing_node,
            split_feature: self.split_feature,
            split_value: self.split_value,
            split_gain: self.split_gain,
            depth: self.depth,
            num: self.num,
            hessian_sum: self.hessian_sum,
            weight_value: learning_rate * self.weight_value,
        }
    }
}

impl fmt::Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if !self.is_leaf {
            return write!(
                f,
                "{}:[{} < {}] yes={},no={},missing={},gain={},cover={}",
                self.num,
                self.split_feature,
                self.split_value,
                self.left_child,
                self.right_child,
                self.missing_node,
                self.split_gain,
                self.hessian_sum
            );
        }
        write!(f, "{}:leaf={},cover={}", self.num, self.weight_value, self.hessian_sum)
    }
}

// What the comparison operators of a node are, given its `partial_cmp` and `eq`.
impl SplittableNode {
    pub fn lt__(&self, other: &Self) -> bool {
        matches!(self.partial_cmp(other), Some(std::cmp::Ordering::Less))
    }
    pub fn le__(&self, other: &Self) -> bool {
        matches!(self.partial_cmp(other), Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal))
    }
    pub fn gt__(&self, other: &Self) -> bool {
        matches!(self.partial_cmp(other), Some(std::cmp::Ordering::Greater))
    }
    pub fn ge__(&self, other: &Self) -> bool {
        matches!(self.partial_cmp(other), Some(std::cmp::Ordering::Greater | std::cmp::Ordering::Equal))
    }
    pub fn ne__(&self, other: &Self) -> bool {
        !self.eq(other)
    }
}
