"""A booster loaded from a file must be refittable on the same DataFrame with the same constraints and terminate list."""
import os, sys, tempfile
import numpy as np, pandas as pd
from forust import GradientBooster
r = np.random.default_rng(0)
X = pd.DataFrame(r.normal(size=(300, 3)), columns=["a", "b", "c"])
y = X["a"] - X["b"] + r.normal(size=300)
m = GradientBooster(objective_type="SquaredLoss", iterations=3, monotone_constraints={"b": -1}, create_missing_branch=True, terminate_missing_features={"c"})
m.fit(X, y)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.json"); m.save_booster(p)
    n = GradientBooster.load_booster(p)
bad = 0
for k in ("monotone_constraints", "terminate_missing_features"):
    a, b = getattr(m, k), getattr(n, k)
    if a != b: bad = 1; print(k, a, "loaded as", b)
try: n.fit(X, y)
except KeyError as e: bad = 1; print("refit: KeyError", e)
sys.exit(bad)
