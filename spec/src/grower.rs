//! C11/C12: depth-wise growth takes nodes first in first out, loss-guided growth takes the node of largest gain.
use crate::node::SplittableNode;
use std::collections::BinaryHeap;
use std::collections::VecDeque;

pub trait Grower {
    fn add_node(&mut self, node: SplittableNode);
    fn get_next_node(&mut self) -> SplittableNode;
    fn is_empty(&self) -> bool;
}

impl Grower for BinaryHeap<SplittableNode> {
    fn add_node(&mut self, node: SplittableNode) {
        BinaryHeap::push(self, node)
    }
    fn get_next_node(&mut self) -> SplittableNode {
        BinaryHeap::pop(self).unwrap()
    }
    fn is_empty(&self) -> bool {
        BinaryHeap::is_empty(self)
    }
}

impl Grower for VecDeque<SplittableNode> {
    fn add_node(&mut self, node: SplittableNode) {
        VecDeque::push_front(self, node)
    }
    fn get_next_node(&mut self) -> SplittableNode {
        VecDeque::pop_back(self).unwrap()
    }
    fn is_empty(&self) -> bool {
        VecDeque::is_empty(self)
    }
}
