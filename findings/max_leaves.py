"""max_leaves with a missing branch: no tree may have more leaves than max_leaves."""
import json, sys
import numpy as np
from forust import GradientBooster
r = np.random.default_rng(0)
X = r.normal(size=(500, 4)); X[r.random(X.shape) < .2] = np.nan
y = np.nansum(X, axis=1) + r.normal(size=500) * .1
bad = 0
for ml in range(3, 12):
    m = GradientBooster(objective_type="SquaredLoss", iterations=3, max_leaves=ml, max_depth=8, create_missing_branch=True, min_leaf_weight=1.)
    m.fit(X, y)
    for t in json.loads(m.json_dump())["trees"]:
        n = sum(x["is_leaf"] for x in t["nodes"])
        if n > ml: bad += 1; print("max_leaves", ml, "leaves", n)
sys.exit(bad > 0)
