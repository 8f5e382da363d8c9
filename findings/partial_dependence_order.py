"""Partial dependence in parallel must give the same bits on every call, and the same as sequentially."""
import sys, json
import numpy as np
from forust import GradientBooster
r = np.random.default_rng(0)
X = r.normal(size=(3000, 5)); y = X.sum(axis=1) + r.normal(size=3000)
m = GradientBooster(objective_type="SquaredLoss", iterations=300, max_depth=6, max_leaves=64); m.fit(X, y)
d = json.loads(m.json_dump())
for i, t in enumerate(d["trees"]):      # trees of very different magnitude, as after long training on noise
    for n in (t["nodes"].values() if isinstance(t["nodes"], dict) else t["nodes"]): n["weight_value"] *= 10. ** (i % 14 - 7)
m.booster = type(m.booster).from_json(json.dumps(d))
d["parallel"] = False
s = GradientBooster(); s.booster = type(m.booster).from_json(json.dumps(d))
diff = 0; runs = 0
for v in np.linspace(-2, 2, 100):
    a = {float(m.booster.value_partial_dependence(0, float(v))) for _ in range(50)}
    b = float(s.booster.value_partial_dependence(0, float(v)))
    runs += len(a) > 1; diff += a != {b}
print("differs between runs:", runs, "differs from sequential:", diff)
sys.exit(runs + diff > 0)
