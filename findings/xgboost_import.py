"""A model imported from XGBoost must predict what the XGBoost model predicts, with or without feature names, and from a Booster too."""
import sys
import numpy as np, xgboost as xgb
import forust
r = np.random.default_rng(1)
X = r.normal(size=(300, 3)).astype("float32").astype(float); y = X[:, 2] * 2 + X[:, 1]
m = xgb.XGBRegressor(n_estimators=5, max_depth=3); m.fit(X, y)
bad = 0
for x in (m, m.get_booster()):
    try:
        d = abs(forust._from_xgboost_model(x).predict(X) - m.predict(X)).max()
        print(type(x).__name__, d); bad |= d > 1e-4
    except AttributeError as e: print(type(x).__name__, e); bad = 1
sys.exit(int(bad))
