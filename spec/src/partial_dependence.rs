//! C23.
use crate::{tree::Tree, utils::is_missing};

fn get_node_cover(tree: &Tree, node_idx: usize) -> f32 {
    let node = &tree.nodes[node_idx];
    node.hessian_sum
}

pub fn tree_partial_dependence(
    tree: &Tree,
    node_idx: usize,
    feature: usize,
    value: f64,
    proportion: f32,
    missing: &f64,
) -> f64 {
    let node = &tree.nodes[node_idx];
    if node.is_leaf {
        return (node.weight_value * proportion) as f64;
    }
    let below = |child: usize, p: f32| tree_partial_dependence(tree, child, feature, value, p, missing);
    if node.split_feature == feature {
        // the routing rule
        if is_missing(&value, missing) {
            return below(node.missing_node, proportion);
        }
        return below(if value < node.split_value { node.left_child } else { node.right_child }, proportion);
    }
    // both (all three) branches, weighted by cover
    let l = get_node_cover(tree, node.left_child);
    let r = get_node_cover(tree, node.right_child);
    if !node.has_missing_branch() {
        let all = l + r;
        return below(node.left_child, proportion * l / all) + below(node.right_child, proportion * r / all);
    }
    let m = get_node_cover(tree, node.missing_node);
    let all = l + r + m;
    below(node.missing_node, proportion * m / all)
        + below(node.left_child, proportion * l / all)
        + below(node.right_child, proportion * r / all)
}
