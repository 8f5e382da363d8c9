//! C15: TreeSHAP (Lundberg et al., algorithm 2) with two or three children per node.
use crate::node::Node;
use crate::tree::Tree;

#[derive(Debug, Clone, Copy)]
struct PathElement {
    feature_index: usize,
    zero_fraction: f32,
    one_fraction: f32,
    pweight: f32,
}

impl Default for PathElement {
    fn default() -> Self {
        PathElement { pweight: 0.0, one_fraction: 0.0, zero_fraction: 0.0, feature_index: 0 }
    }
}

#[derive(Debug, Clone, Default)]
struct PathList {
    paths: Vec<PathElement>,
}

impl PathList {
    fn get_element(&mut self, i: usize) -> &PathElement {
        if self.paths.len() == i {
            self.paths.push(PathElement::default());
        }
        &self.paths[i]
    }
    fn get_element_mut(&mut self, i: usize) -> &mut PathElement {
        if self.paths.len() == i {
            self.paths.push(PathElement::default());
        }
        &mut self.paths[i]
    }
}

fn extend_path(
    unique_path: &mut PathList,
    unique_depth: usize,
    zero_fraction: f32,
    one_fraction: f32,
    feature_index: usize,
) {
    let new = unique_path.get_element_mut(unique_depth);
    new.pweight = if unique_depth == 0 { 1.0 } else { 0.0 };
    new.feature_index = feature_index;
    new.one_fraction = one_fraction;
    new.zero_fraction = zero_fraction;
    let n = (unique_depth + 1) as f32;
    for i in (0..unique_depth).rev() {
        let up = one_fraction * unique_path.get_element(i).pweight * (i + 1) as f32 / n;
        unique_path.get_element_mut(i + 1).pweight += up;
        let stay = zero_fraction * unique_path.get_element(i).pweight * (unique_depth - i) as f32 / n;
        unique_path.get_element_mut(i).pweight = stay;
    }
}

fn unwind_path(unique_path: &mut PathList, unique_depth: usize, path_index: usize) {
    let one_fraction = unique_path.get_element(path_index).one_fraction;
    let zero_fraction = unique_path.get_element(path_index).zero_fraction;
    let mut next_one_portion = unique_path.get_element(unique_depth).pweight;
    let n = (unique_depth + 1) as f32;
    for i in (0..unique_depth).rev() {
        if one_fraction == 0.0 {
            let w = unique_path.get_element(i).pweight;
            unique_path.get_element_mut(i).pweight = w * n / (zero_fraction * (unique_depth - i) as f32);
        } else {
            let before = unique_path.get_element(i).pweight;
            let now = next_one_portion * n / ((i + 1) as f32 * one_fraction);
            unique_path.get_element_mut(i).pweight = now;
            next_one_portion = before - unique_path.get_element(i).pweight * zero_fraction * (unique_depth - i) as f32 / n;
        }
    }
    for i in path_index..unique_depth {
        unique_path.get_element_mut(i).feature_index = unique_path.get_element(i + 1).feature_index;
        unique_path.get_element_mut(i).zero_fraction = unique_path.get_element(i + 1).zero_fraction;
        unique_path.get_element_mut(i).one_fraction = unique_path.get_element(i + 1).one_fraction;
    }
}

fn unwound_path_sum(unique_path: &mut PathList, unique_depth: usize, path_index: usize) -> f32 {
    let one_fraction = unique_path.get_element(path_index).one_fraction;
    let zero_fraction = unique_path.get_element(path_index).zero_fraction;
    let mut next_one_portion = unique_path.get_element(unique_depth).pweight;
    let n = (unique_depth + 1) as f32;
    let mut total = 0.0;
    for i in (0..unique_depth).rev() {
        if one_fraction != 0.0 {
            let part = next_one_portion * n / ((i + 1) as f32 * one_fraction);
            total += part;
            next_one_portion = unique_path.get_element(i).pweight - part * zero_fraction * (unique_depth - i) as f32 / n;
        } else if zero_fraction != 0.0 {
            total += (unique_path.get_element(i).pweight / zero_fraction) / ((unique_depth - i) as f32 / n);
        } else if unique_path.get_element(i).pweight != 0.0 {
            panic!("Unique path {} must have zero weight", i);
        }
    }
    total
}

/// The child the row goes to comes first, then every other child once.
fn get_hot_cold_children(next_node_idx: usize, node: &Node) -> Vec<usize> {
    let (l, r, m) = (node.left_child, node.right_child, node.missing_node);
    match (node.has_missing_branch(), next_node_idx == r, next_node_idx == l) {
        (false, true, _) => vec![r, l],
        (false, false, _) => vec![l, r],
        (true, true, _) => vec![r, l, m],
        (true, false, true) => vec![l, r, m],
        (true, false, false) => vec![m, l, r],
    }
}

#[allow(clippy::too_many_arguments)]
fn tree_shap(
    tree: &Tree,
    row: &[f64],
    contribs: &mut [f64],
    node_index: usize,
    mut unique_depth: usize,
    mut unique_path: PathList,
    parent_zero_fraction: f32,
    parent_one_fraction: f32,
    parent_feature_index: usize,
    missing: &f64,
) {
    extend_path(&mut unique_path, unique_depth, parent_zero_fraction, parent_one_fraction, parent_feature_index);
    let node = &tree.nodes[node_index];
    if node.is_leaf {
        for i in 1..=unique_depth {
            let w = unwound_path_sum(&mut unique_path, unique_depth, i);
            let e = unique_path.get_element(i);
            let c = w * (e.one_fraction - e.zero_fraction) * node.weight_value;
            contribs[e.feature_index] += c as f64;
        }
        return;
    }
    let hot = node.get_child_idx(&row[node.split_feature], missing);
    let children = get_hot_cold_children(hot, node);

    let mut at = 0;
    loop {
        if at > unique_depth {
            break;
        }
        if unique_path.get_element(at).feature_index == node.split_feature {
            break;
        }
        at += 1;
    }
    let (mut zero_in, mut one_in) = (1.0, 1.0);
    if at != unique_depth + 1 {
        zero_in = unique_path.get_element(at).zero_fraction;
        one_in = unique_path.get_element(at).one_fraction;
        unwind_path(&mut unique_path, unique_depth, at);
        unique_depth -= 1;
    }
    let mut first = true;
    for child in children {
        let share = tree.nodes[child].hessian_sum / node.hessian_sum;
        tree_shap(
            tree,
            row,
            contribs,
            child,
            unique_depth + 1,
            unique_path.clone(),
            share * zero_in,
            if first { one_in } else { 0.0 },
            node.split_feature,
            missing,
        );
        first = false;
    }
}

pub fn predict_contributions_row_shapley(tree: &Tree, row: &[f64], contribs: &mut [f64], missing: &f64) {
    let bias = contribs.len() - 1;
    contribs[bias] += tree.get_average_leaf_weights(0);
    // a feature number that no split can have
    let none = row.len() + 100;
    tree_shap(tree, row, contribs, 0, 0, PathList::default(), 1.0, 1.0, none, missing)
}
