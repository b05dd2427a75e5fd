"""C24: introspection agrees with the model that predicts."""
import re
import numpy as np, pandas as pd
from hypothesis import strategies as st
from common import run, fail
from gen import *
from ref import RModel, num

LINE = re.compile(r"^(\s*)(\d+):(?:\[(\d+) < (\S+)\] yes=(\d+),no=(\d+),missing=(\d+),gain=(\S+),cover=(\S+)|leaf=(\S+),cover=(\S+))$")


@st.composite
def cases(draw):
    c = draw(st_case(max_rows=40, max_cols=5))
    c["pred_it"] = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, "none"]))
    c["loaded"] = draw(st.sampled_from([None, None, "pickle", "load"]))
    c["imp"] = draw(st.sampled_from(IMPORTANCE))
    c["normalize"] = draw(st.booleans())
    return c


def f32eq(a, b):
    return same(a, b) or float(np.float32(a)) == float(np.float32(b))


def close(a, b, tol):
    return same(a, b) or abs(a - b) <= tol


def check(c, ctx):
    names = c["names"]
    cols = c["cols"]
    m = fit(c, names)
    if c["pred_it"] == "none":
        m.set_prediction_iteration(0)
    elif c["pred_it"] and c["pred_it"] <= m.number_of_trees:
        m.set_prediction_iteration(c["pred_it"])
    if c["loaded"] == "pickle":
        import pickle

        m = pickle.loads(pickle.dumps(m))
    elif c["loaded"] == "load":
        import os, tempfile

        fd, path = tempfile.mkstemp(prefix="vh-c24-")
        os.close(fd)
        try:
            m.save_booster(path)
            m = GradientBooster.load_booster(path)
        finally:
            os.remove(path)
    P = xmat(c, {"x": c["probe"]})
    PX = pd.DataFrame(P, columns=names) if names else P
    r = RModel(m)
    sc = r.scale()
    pred = m.predict(PX)
    # attributes
    if m.number_of_trees != len(r.trees):
        fail("trees", f"number_of_trees {m.number_of_trees}, the dump has {len(r.trees)}")
    if m.best_iteration != r.doc["best_iteration"] or m.get_best_iteration() != r.doc["best_iteration"] or m.prediction_iteration != r.pi:
        fail("iterations", f"best iteration {m.best_iteration}, prediction iteration {m.prediction_iteration}, dump {r.doc['best_iteration']}, {r.pi}")
    if m.base_score != r.base:
        fail("base", f"base_score {m.base_score}, dump {r.base}")
    # node lists
    for mapped in (True, False):
        nl = m.get_node_lists(map_features_names=mapped)
        if [len(t) for t in nl] != [len(t) for t in r.trees]:
            fail("node_lists", f"node counts {[len(t) for t in nl]}, dump {[len(t) for t in r.trees]}")
        for ti, (a, b) in enumerate(zip(nl, r.trees)):
            for ni, (x, z) in enumerate(zip(a, b)):
                for k in ("num", "depth", "left_child", "right_child", "missing_node", "is_leaf", "weight_value", "hessian_sum", "split_value", "split_gain"):
                    if not same(getattr(x, k), z[k]):
                        fail("node_lists", f"tree {ti} node {ni}: {k} is {getattr(x, k)!r}, dump {z[k]!r}")
                if x.is_leaf:
                    want = "" if mapped and names else -1
                else:
                    want = names[z["split_feature"]] if mapped and names else z["split_feature"]
                if not same(x.split_feature, want) or type(x.split_feature) is not type(want):
                    fail("node_lists", f"tree {ti} node {ni}: split feature {x.split_feature!r}, expected {want!r}")
                if z["num"] != ni:
                    fail("node_lists", f"tree {ti}: node at position {ni} is numbered {z['num']}")
    # table
    df = m.trees_to_dataframe()
    flat = [(ti, n) for ti, t in enumerate(r.trees) for n in t]
    if len(df) != len(flat):
        fail("table", f"{len(df)} rows for {len(flat)} nodes")
    nul = lambda v: v is None or (isinstance(v, float) and v != v)
    for row, (ti, n) in zip(df.to_dict("records"), flat):
        leaf = n["is_leaf"]
        exp = {
            "Tree": ti, "Node": n["num"], "ID": f"{ti}-{n['num']}", "Feature": "Leaf" if leaf else str(names[n["split_feature"]] if names else n["split_feature"]),
            "Split": None if leaf else n["split_value"], "Yes": None if leaf else f"{ti}-{n['left_child']}", "No": None if leaf else f"{ti}-{n['right_child']}",
            "Missing": None if leaf else f"{ti}-{n['missing_node']}", "Gain": n["weight_value"] if leaf else n["split_gain"], "Cover": n["hessian_sum"],
        }
        if set(row) != set(exp):
            fail("table", f"columns {sorted(row)}")
        for k, v in exp.items():
            if not (same(row[k], v) or (nul(row[k]) and nul(v))):
                fail("table", f"row {row['ID']}: {k} is {row[k]!r}, expected {v!r}")
    # text
    txt = m.text_dump()
    if len(txt) != len(r.trees):
        fail("text", f"{len(txt)} texts for {len(r.trees)} trees")
    for ti, (s, t) in enumerate(zip(txt, r.trees)):
        seen = set()
        for line in s.splitlines():
            g = LINE.match(line)
            if not g:
                fail("text", f"tree {ti}: unreadable line {line!r}")
            i = int(g[2])
            if i in seen or i >= len(t):
                fail("text", f"tree {ti}: node {i} twice or unknown")
            seen.add(i)
            n = t[i]
            if len(g[1]) != 6 * n["depth"]:
                fail("text", f"tree {ti}: node {i} of depth {n['depth']} is indented by {len(g[1])}")
            if n["is_leaf"] != (g[10] is not None):
                fail("text", f"tree {ti}: node {i} leaf mismatch")
            if n["is_leaf"]:
                ok = f32eq(num(g[10]), n["weight_value"]) and f32eq(num(g[11]), n["hessian_sum"])
            else:
                ok = (
                    int(g[3]) == n["split_feature"] and same(num(g[4]), n["split_value"]) and int(g[5]) == n["left_child"] and int(g[6]) == n["right_child"]
                    and int(g[7]) == n["missing_node"] and f32eq(num(g[8]), n["split_gain"]) and f32eq(num(g[9]), n["hessian_sum"])
                )
            if not ok:
                fail("text", f"tree {ti}: line {line!r} does not match node {n}")
        if len(seen) != len(t):
            fail("text", f"tree {ti}: {len(seen)} of {len(t)} nodes printed")
    # predictions and leaf indices recomputed
    li = m.predict_leaf_indices(PX)
    if li.shape != (len(P), len(r.used)):
        fail("leaf", f"leaf indices have shape {li.shape} for {len(P)} records and {len(r.used)} trees in use")
    wc = m.predict_contributions(PX, method="Weight")
    conts = {k: m.predict_contributions(PX, method=k) for k in ("Average", "Shapley", "BranchDifference", "MidpointDifference", "ModeDifference")}
    splits = {n["split_feature"] for t in r.used for n in t if not n["is_leaf"]}
    for i in range(len(P)):
        row = P[i].tolist()
        if li[i].tolist() != r.leaves(row):
            fail("leaf", f"record {row}: leaf indices {li[i].tolist()}, routed {r.leaves(row)}")
        if not close(pred[i], r.predict(row), 1e-9 * sc):
            fail("predict", f"record {row}: prediction {pred[i]}, recomputed {r.predict(row)}")
        want = r.weight_contributions(row, cols)
        for j in range(cols + 1):
            if not close(wc[i, j], want[j], 1e-5 * sc):
                fail("weight", f"record {row}: contribution {j} is {wc[i, j]}, recomputed {want[j]}")
        for k, v in conts.items():
            if k in ("Average", "Shapley") and not close(v[i].sum(), pred[i], 1e-4 * sc):
                fail("sum", f"record {row}: {k} contributions sum to {v[i].sum()}, prediction {pred[i]}")
            for j in range(cols):
                if j not in splits and v[i, j] != 0:
                    fail("unused", f"{k} contribution of unused feature {j} is {v[i, j]}")
    # evaluation history against the metric definition
    h = m.get_evaluation_history()
    if (h is None) != (not c["evals"]):
        fail("history", f"history {h} with {len(c['evals'])} evaluation sets")
    if h is not None:
        if h.shape != (len(r.trees), len(c["evals"])):
            fail("history", f"shape {h.shape} for {len(r.trees)} trees and {len(c['evals'])} sets")
        logloss = c["params"].get("objective_type", "LogLoss") == "LogLoss"
        metric = c["params"].get("evaluation_metric") or ("LogLoss" if logloss else "RootMeanSquaredLogError")
        for e, s in enumerate(c["evals"]):
            y = yv(s)
            w = wts(s) if s["w"] is not None else np.ones(len(y))
            for k in range(len(r.trees)):
                p = tiled(s, np.array([r.predict(row, k + 1) for row in s["x"]]))
                if metric == "RootMeanSquaredError":
                    v = np.sqrt((w * (p - y) ** 2).sum() / w.sum())
                elif metric == "LogLoss" and np.abs(p).max() < 20:
                    q = 1 / (1 + np.exp(-p))
                    v = -(w * (y * np.log(q) + (1 - y) * np.log(1 - q))).sum() / w.sum()
                else:
                    continue
                if not close(h[k, e], v, 1e-6 * (abs(v) + 1e-6)):
                    fail("history", f"{metric} after {k + 1} trees on set {e} is {h[k, e]}, recomputed {v}")
                ctx.label("history entry")
    # importances
    for method in IMPORTANCE:
        want = r.importance(method)
        for normalize in (True, False):
            got = m.calculate_feature_importance(method=method, normalize=normalize)
            tot = sum(want.values()) if normalize else 1.0
            keys = {names[f] if names else f: v / tot for f, v in want.items()} if want else {}
            if set(got) != set(keys):
                fail("importance", f"{method}: features {sorted(map(str, got))}, splits on {sorted(map(str, keys))}")
            for k, v in keys.items():
                if not close(got[k], v, 1e-4 * abs(v) + 1e-9):
                    fail("importance", f"{method} of {k!r} is {got[k]}, recomputed {v}")
    fm = c["params"].get("feature_importance_method", "Gain")
    want = r.importance(fm)
    tot = sum(want.values()) or 1.0
    fi = m.feature_importances_
    if fi.shape != (cols,) or not all(close(fi[j], want.get(j, 0.0) / tot, 1e-4) for j in range(cols)):
        fail("importances_", f"feature_importances_ {fi.tolist()}, {fm} recomputed {[want.get(j, 0.0) / tot for j in range(cols)]}")
    # by name and by index
    if names and all(isinstance(n, str) for n in names):
        X = frame(c)
        for j in range(cols):
            if r.is_missing(X.iloc[0, j]) and all(r.is_missing(v) for v in X.iloc[:, j]):
                continue
            need_eq("by name", m.partial_dependence(X, names[j], samples=None), m.partial_dependence(X, j, samples=None), f"partial dependence of {names[j]!r} and {j}")
        ctx.label("named")
    if len(r.used) < len(r.trees):
        ctx.label("truncated")
    if any(not n["is_leaf"] and n["missing_node"] not in (n["left_child"], n["right_child"]) for t in r.trees for n in t):
        ctx.label("missing branch")
    return has_split(m)


if __name__ == "__main__":
    run("C24", "A case is a fitted estimator (array or frame with string or integer labels, all parameters, sometimes truncated, pickled or loaded). Node lists, table, text dump, attributes, leaf indices, Weight contributions, importances, evaluation history and predictions are compared with a reference that reads only the JSON dump; partial dependence by name and index must coincide. Non-trivial: the model has a split.",
        cases(), check, quick=9000, thorough=40000)
