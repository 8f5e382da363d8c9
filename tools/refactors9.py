import re
from refactors import r
G, T, N, S, B, U, H, D, M, O, SH, PD, SA, GR = ('src/%s.rs' % x for x in ('gradientbooster', 'tree', 'node', 'splitter', 'binning', 'utils', 'histogram', 'data', 'metric', 'objective', 'shapley', 'partial_dependence', 'sampler', 'grower'))
def src(f): return open('/repo/' + f).read()
def whole(name, *fs):
    """edits of whole files: (file, function on the text before the tests)"""
    out = []
    for f, g in fs:
        s = src(f); i = s.find('#[cfg(test)]'); a = s if i < 0 else s[:i]; b = '' if i < 0 else s[i:]
        t = g(a)
        assert t != a, name
        out.append((f, s, t + b))
    r(name, *out)
def sb(*prs):
    def g(s):
        for p, q in prs: s = re.sub(p, q, s, flags=re.S)
        return s
    return g
def rp(*prs):
    def g(s):
        for p, q in prs:
            assert p in s, p
            s = s.replace(p, q)
        return s
    return g
whole('F9_goss_fields', (SA, rp(('    a: f64, //', '    top_rate: f64, //'), ('    b: f64, //', '    other_rate: f64, //'), ('GossSampler { a: 0.2, b: 0.1 }', 'GossSampler { top_rate: 0.2, other_rate: 0.1 }'),
      ('GossSampler { a, b }', 'GossSampler { top_rate: a, other_rate: b }'), ('self.a', 'self.top_rate'), ('self.b', 'self.other_rate'))))
whole('F9_random_field', (SA, sb((r'subsample: f32,\n\}', 'rate: f32,\n}'), (r'RandomSampler \{ subsample \}', 'RandomSampler { rate: subsample }'), (r'self\.subsample', 'self.rate'))))
whole('F9_path_fields', (SH, sb((r'pweight', 'path_weight'), (r'\bPathElement\b', 'Element'))))
whole('F9_path_tuple', (SH, rp(('struct PathList {\n    paths: Vec<PathElement>,\n}', 'struct PathList(Vec<PathElement>);'), ('self.paths', 'self.0'))))
whole('F9_bounds_names', (N, sb((r'\blower_bound\b', 'min_weight'), (r'\bupper_bound\b', 'max_weight'))), (S, sb((r'node\.lower_bound', 'node.min_weight'), (r'node\.upper_bound', 'node.max_weight'))))
whole('F9_nodeinfo_names', (S, sb((r'pub cover: f32', 'pub hessian: f32'), (r'(\s)cover:', r'\1hessian:'), (r'\.cover\b', '.hessian'))), (N, sb((r'\.cover\b', '.hessian'))))
whole('F9_fn_args', (PD, sb((r'fn get_node_cover\(tree: &Tree, node_idx: usize\)', 'fn get_node_cover(node_idx: usize, tree: &Tree)'), (r'get_node_cover\(tree, ([a-z_.]+)\)', r'get_node_cover(\1, tree)'))))
whole('F9_fn_value', (S, sb((r'fn get_constraint\(&self, feature: &usize\)', 'fn get_constraint(&self, feature: usize)'), (r'constraints_map\.get\(feature\)', 'constraints_map.get(&feature)'), (r'self\.get_constraint\(&feature\)', 'self.get_constraint(feature)'))))
whole('F9_fn_rename', (U, sb((r'\bcull_gain\b', 'apply_constraint'))), (S, sb((r'\bcull_gain\b', 'apply_constraint'))))
whole('F9_fn_nodes', (S, sb((r'n_nodes: &usize', 'n_nodes: usize'), (r'\*n_nodes', 'n_nodes'))), (T, sb((r'&n_nodes, &mut node', 'n_nodes, &mut node'))))
whole('F9_hist_named', (H, sb((r'pub struct HistogramMatrix\(pub JaggedMatrix<Bin<f32>>\);', 'pub struct HistogramMatrix { pub bins: JaggedMatrix<Bin<f32>> }'),
      (r'HistogramMatrix\(JaggedMatrix \{(.*?)\n        \}\)', r'HistogramMatrix { bins: JaggedMatrix {\1\n        } }'),
      (r'let HistogramMatrix\((\w+)\)', r'let HistogramMatrix { bins: \1 }'))), (S, sb((r'let HistogramMatrix\((\w+)\)', r'let HistogramMatrix { bins: \1 }'))))
whole('F9_struct_order', (S, rp(('    pub split_gain: f32,\n    pub split_feature: usize,', '    pub split_feature: usize,\n    pub split_gain: f32,'))))
whole('F9_by_value', (U, sb((r'pub fn gain\(l2: &f32,', 'pub fn gain(l2: f32,'), (r'\(gradient_sum \* gradient_sum\) / \(hessian_sum \+ l2\)', '(gradient_sum * gradient_sum) / (hessian_sum + l2)'))), (T, sb((r'gain\(&splitter\.get_l2\(\)', 'gain(splitter.get_l2()'))))
whole('F9_drop_arg', (SH, sb((r'    node_index: usize,\n    mut unique_depth', '    node: &Node,\n    mut unique_depth'), (r'    let node = &tree\.nodes\[node_index\];\n', ''), (r'                n_idx,\n                unique_depth \+ 1', '                &tree.nodes[n_idx],\n                unique_depth + 1'),
      (r'        contribs,\n        0,\n        0,', '        contribs,\n        &tree.nodes[0],\n        0,'))))
