"""A split on an unconstrained feature below a constrained split must keep its children inside the bounds."""
import sys
import numpy as np
from forust import GradientBooster
bad = 0
for seed in range(200):
    r = np.random.default_rng(seed)
    n = 200
    X = np.column_stack([r.integers(0, 4, n), r.integers(0, 4, n), r.integers(0, 2, n)]).astype(float)
    y = 2. * X[:, 0] + r.normal(size=(4, 4, 2))[X[:, 0].astype(int), X[:, 1].astype(int), X[:, 2].astype(int)] * 6
    m = GradientBooster(objective_type="SquaredLoss", iterations=1, max_depth=5, max_leaves=40, min_leaf_weight=1., learning_rate=1., l2=0., monotone_constraints={0: 1})
    m.fit(X, y)
    for b in range(4):
        for c in range(2):
            p = m.predict(np.array([[a, b, c] for a in range(4)], dtype=float))
            if (np.diff(p) < -1e-5).any(): bad += 1; print("seed", seed, "x1, x2 =", (b, c), "predictions for x0 = 0..3:", p)
print(bad)
sys.exit(bad > 0)
