"""C27: an imported XGBoost model predicts what XGBoost predicts."""
import json, pickle
import numpy as np, pandas as pd
import xgboost
from hypothesis import strategies as st
from common import run, fail
from gen import *
import forust

IMP = {"Weight": "weight", "Gain": "gain", "Cover": "cover", "TotalGain": "total_gain", "TotalCover": "total_cover"}
VALS = [0.0, 1.0, 2.0, 3.0, -1.0, 5.0, 0.5, -2.75, 12.25, 1000.0, 0.125]


@st.composite
def cases(draw):
    cols = draw(st.integers(1, 5))
    n = draw(st.integers(3, 40))
    logistic = draw(st.booleans())
    el = st.one_of(st.sampled_from(VALS), st.sampled_from(VALS), st.sampled_from(VALS), st.just(None))
    wide = draw(st.booleans())
    if wide:
        el = st.one_of(st.floats(-100, 100, width=32), st.floats(-3, 3, width=32), st.just(None))
    x = [draw(st.lists(el, min_size=cols, max_size=cols)) for _ in range(n)]
    x = [[NAN if v is None else v + 0.0 for v in r] for r in x]
    y = draw(st.lists(st.sampled_from([0.0, 1.0] if logistic else [0.0, 1.0, 2.5, -1.5, 7.0]), min_size=n, max_size=n))
    y[0], y[-1] = 0.0, 1.0
    p = {
        "max_depth": draw(st.sampled_from([2, 3, 1, 6])), "eta": draw(st.sampled_from([0.3, 1.0, 0.1])), "lambda": draw(st.sampled_from([1.0, 0.1])),
        "min_child_weight": draw(st.sampled_from([0.0, 0.1, 1.0])), "seed": draw(st.integers(0, 5)), "subsample": draw(st.sampled_from([1.0, 0.7])),
        "tree_method": draw(st.sampled_from(["hist", "exact", "approx"])), "nthread": 1, "verbosity": 0,
    }
    if draw(st.booleans()) and p["tree_method"] == "hist":
        p["grow_policy"] = "lossguide"
        p["max_leaves"] = draw(st.sampled_from([3, 5, 8]))
    if draw(st.booleans()):
        p["base_score"] = draw(st.one_of(st.sampled_from([0.5, 0.2, 0.9] if logistic else [0.0, 1.25, -3.0]), st.one_of(st.floats(0.0078125, 0.96875, width=32), st.sampled_from([0.001953125, 0.0001220703125, 0.998046875, 0.9998779296875])) if logistic else st.integers(-4096, 4096).map(lambda v: v / 64)))
    return {
        "x": x, "y": y, "logistic": logistic, "cols": cols, "params": p, "rounds": draw(st.integers(1, 5)), "api": draw(st.sampled_from(["booster", "sklearn", "booster_named", "sklearn_frame"])),
        "names": [["b", "a", "z z", "age", "0"][j] for j in range(cols)] if not draw(st.booleans()) else ["f%d" % (cols - 1 - j) for j in range(cols)],
        "probe": [[NAN if v is None else v + 0.0 for v in draw(st.lists(el, min_size=cols, max_size=cols))] for _ in range(draw(st.integers(0, 8)))],
    }


def train(c):
    X, y = arr(c["x"], c["cols"]), arr(c["y"])
    obj = "binary:logistic" if c["logistic"] else "reg:squarederror"
    named = c["api"] in ("booster_named", "sklearn_frame")
    if c["api"].startswith("booster"):
        d = xgboost.DMatrix(X, label=y, feature_names=c["names"] if named else None)
        m = xgboost.train(dict(c["params"], objective=obj), d, num_boost_round=c["rounds"])
        booster = m
    else:
        k = dict(c["params"])
        k.pop("nthread")
        k["learning_rate"], k["reg_lambda"], k["random_state"] = k.pop("eta"), k.pop("lambda"), k.pop("seed")
        cls = xgboost.XGBClassifier if c["logistic"] else xgboost.XGBRegressor
        m = cls(n_estimators=c["rounds"], n_jobs=1, objective=obj, **k)
        m.fit(pd.DataFrame(X, columns=c["names"]) if named else X, y)
        booster = m.get_booster()
    return m, booster


def check(c, ctx):
    try:
        m, booster = train(c)
    except xgboost.core.XGBoostError:
        ctx.label("skipped: XGBoost refuses to train")
        return False
    named = c["api"] in ("booster_named", "sklearn_frame")
    X = arr(c["x"], c["cols"])
    f = forust._from_xgboost_model(m)
    P = np.vstack([X, arr(c["probe"], c["cols"])]) if c["probe"] else X
    dm = xgboost.DMatrix(P, feature_names=c["names"] if named else None)
    want = booster.predict(dm, output_margin=True).astype("f8")
    FX = pd.DataFrame(P, columns=c["names"]) if named else P
    got = f.predict(FX)
    leaf = booster.predict(dm, pred_leaf=True).reshape(len(P), -1)
    if f.number_of_trees != c["rounds"]:
        fail("trees", f"{f.number_of_trees} trees imported, {c['rounds']} trained")
    if f.predict_leaf_indices(FX).tolist() != leaf.astype(int).tolist():
        fail("leaf", f"leaf indices {f.predict_leaf_indices(FX).tolist()}, XGBoost {leaf.astype(int).tolist()}")
    # XGBoost reports its base score with seven digits
    b = float(json.loads(booster.save_config())["learner"]["learner_model_param"]["base_score"])
    slack = 2e-7 * abs(b) / (b * (1 - b)) if c["logistic"] else 2e-7 * abs(b)
    tol = 1e-5 * (1 + np.abs(want)) + slack
    if got.shape != want.shape or not (np.abs(got - want) <= tol).all():
        fail("predict", f"imported model predicts {got.tolist()}, XGBoost {want.tolist()}")
    # explanations of the imported model
    want = booster.predict(dm, pred_contribs=True).astype("f8")
    got = f.predict_contributions(FX, method="Shapley")
    tol = 1e-4 * (1 + np.abs(want).max()) + slack
    if got.shape != want.shape or not (np.abs(got - want) <= tol).all():
        fail("shapley", f"Shapley contributions {got.tolist()}, XGBoost {want.tolist()}")
    want = booster.predict(dm, pred_contribs=True, approx_contribs=True).astype("f8")
    got = f.predict_contributions(FX, method="Average")
    if got.shape != want.shape or not (np.abs(got - want) <= tol).all():
        fail("average", f"Average contributions {got.tolist()}, XGBoost {want.tolist()}")
    names = booster.feature_names or ["f%d" % j for j in range(c["cols"])]
    for forust_name, xgb_name in IMP.items():
        want = booster.get_score(importance_type=xgb_name)
        got = f.calculate_feature_importance(method=forust_name, normalize=False)
        got = {(k if isinstance(k, str) else names[k]): v for k, v in got.items()}
        if set(want) != set(got) or any(abs(got[k] - want[k]) > 1e-4 * (1 + abs(want[k])) for k in want):
            fail("importance", f"{forust_name} importance {got}, XGBoost {want}")
    # the imported model is a model like any other
    g = pickle.loads(pickle.dumps(f))
    if not biteq(g.predict(P), f.predict(P)):
        fail("reload", "the imported model predicts something else after pickling")
    if booster.feature_names is not None and (list(f.feature_names_in_) != list(booster.feature_names) or f.n_features_ != c["cols"]):
        fail("names", f"feature names {f.feature_names_in_}, XGBoost {booster.feature_names}")
    ctx.label(c["api"])
    ctx.label("objective logistic" if c["logistic"] else "objective squared error")
    return len(np.unique(leaf)) > 1


if __name__ == "__main__":
    run("C27", "A case is an XGBoost model (three tree methods, both growth policies, logistic or squared error, explicit or estimated base score, plain booster or scikit-learn wrapper, with or without feature names) trained on single-precision data with missing values; the imported model must reach the same leaf of every tree and predict the same margin up to single precision for training and new records, and give the contributions and importances XGBoost computes. Non-trivial: more than one leaf is reached.",
        cases(), check, quick=6000, thorough=20000)
