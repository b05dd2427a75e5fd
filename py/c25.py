"""C25 (Python part): results depend only on the parameters and the last fit."""
import os, pickle, tempfile
import numpy as np, pandas as pd
from hypothesis import strategies as st
from common import run, fail
from gen import *

OPS = ["fit", "fit", "fit", "set_params", "pred_it", "predict", "explain", "inspect", "dump", "pickle", "load", "meta", "bad_fit", "pd"]


@st.composite
def cases(draw):
    cols = draw(st.integers(1, 4))
    named = draw(st.booleans())  # constraints by name: every fit on a frame, columns in any order
    p = draw(st_params(cols, mono=named, sentinel=False))
    if not named:
        p.pop("terminate_missing_features", None)
    logloss = p.get("objective_type", "LogLoss") == "LogLoss"
    base_names = ["a", "b", "c", "d"][:cols]
    sets = []
    for i in range(draw(st.integers(1, 3))):
        k = cols if named else draw(st.integers(1, 4))
        kinds = [draw(st.sampled_from(COLKINDS)) for _ in range(k)]
        d = draw(st_data(k, kinds, logloss, NAN, max_rows=20, min_rows=2, bulk=60))
        d["cols"] = k
        d["evals"] = [draw(st_data(k, kinds, logloss, NAN, max_rows=6)) for _ in range(draw(st.integers(0, 2)))]
        d["names"] = list(draw(st.permutations(base_names))) if named else ([["u", "v", "w", "x"][j] + str(i) for j in range(k)] if draw(st.booleans()) else None)
        sets.append(d)
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        o = draw(st.sampled_from(OPS))
        if o == "set_params":
            q = draw(st_params(cols, mono=named, sentinel=False))
            q.pop("objective_type", None)
            if not named:
                q.pop("terminate_missing_features", None)
            ops.append([o, q])
        elif o == "meta":
            ops.append([o, draw(st.sampled_from(["k", "é", "q w"])), draw(st.text(max_size=4, alphabet="abc\u2603 "))])
        else:
            ops.append([o, draw(st.integers(0, 5)), draw(st.booleans())])
    return {"params": p, "sets": sets, "ops": ops, "named": named, "base_names": base_names}


def do_fit(m, d, with_evals):
    f = (lambda s: pd.DataFrame(arr(s["x"], d["cols"]), columns=d["names"])) if d["names"] else (lambda s: arr(s["x"], d["cols"]))
    ev = [(f(e), arr(e["y"]), arr(e["w"] or [1.0] * len(e["y"]))) for e in d["evals"]] if with_evals else []
    return m.fit(f(d), arr(d["y"]), sample_weight=wts(d), evaluation_data=ev or None)


def view(m, d):
    X = arr(d["x"], d["cols"])
    F = pd.DataFrame(X, columns=d["names"]) if d["names"] else X
    return {
        "predict": m.predict(F).tolist(), "array": m.predict(X, parallel=False).tolist(), "leaf": m.predict_leaf_indices(F).tolist(), "contrib": m.predict_contributions(F, method="Weight").tolist(),
        "importances": [float(np.float32(v)) for v in m.feature_importances_], "nodes": [[n.__dict__ for n in t] for t in m.get_node_lists()], "names": list(getattr(m, "feature_names_in_", [])) or None,
        "n_features": m.n_features_, "history": None if m.get_evaluation_history() is None else m.get_evaluation_history().tolist(), "best": m.best_iteration,
        "used": sorted(map(str, m.calculate_feature_importance("Weight"))), "base": m.base_score,
    }


def check(c, ctx):
    names = c["base_names"] if c["named"] else None
    cur = kwargs(c["params"], names)
    m = GradientBooster(**cur)
    last, pred_it, meta, fits = None, "unset", {}, 0
    for op in c["ops"]:
        k = op[0]
        ctx.label(k)
        if k == "fit":
            last = (c["sets"][op[1] % len(c["sets"])], op[2])
            r = do_fit(m, *last)
            if r is not m:
                fail("fit", "fit does not return the estimator")
            cur["base_score"] = m.base_score
            pred_it = "unset"
            fits += 1
        elif k == "set_params":
            new = kwargs(op[1], names)
            cur.update(new)
            m.set_params(**new)
            if m.number_of_trees != 0:
                fail("set_params", "set_params left trees behind")
            last, pred_it, meta = None, "unset", {}
            continue
        elif k == "meta":
            m.insert_metadata(op[1], op[2])
            meta[op[1]] = op[2]
        elif k == "pickle":
            m = pickle.loads(pickle.dumps(m))
        elif last is None:
            continue
        elif k == "load":
            fd, path = tempfile.mkstemp(prefix="vh-c25-")
            os.close(fd)
            try:
                m.save_booster(path)
                m = GradientBooster.load_booster(path)
            finally:
                os.remove(path)
        elif k == "pred_it":
            v = op[1] if op[1] <= m.number_of_trees else None
            m.set_prediction_iteration(v)
            pred_it = v
        elif k == "bad_fit":
            o = c["sets"][op[1] % len(c["sets"])]
            d = dict(o, y=[NAN] + o["y"][1:]) if op[2] else dict(o, w=[-1.0] + [1.0] * (len(o["y"]) - 1))
            try:
                do_fit(m, d, False)
                fail("bad_fit", "a fit with an invalid label or weight succeeds")
            except ValueError:
                pass
        else:
            before = m.json_dump()
            d = last[0]
            X = arr(d["x"], d["cols"])
            if k == "predict":
                m.predict(X)
                m.predict_leaf_indices(X)
            elif k == "explain":
                m.predict_contributions(X, method=CONTRIB[op[1]])
            elif k == "pd":
                j = op[1] % d["cols"]
                if not np.isnan(X[:, j]).all():
                    m.partial_dependence(X, j, samples=3, exclude_missing=op[2])
            elif k == "inspect":
                m.get_params(), m.trees_to_dataframe(), m.feature_importances_, m.get_node_lists(map_features_names=op[2])
            else:
                m.text_dump(), m.json_dump(), m.get_evaluation_history()
            if diff(json.loads(before), json.loads(m.json_dump())):
                fail("readonly", f"{k} changed the model: {diff(json.loads(before), json.loads(m.json_dump()))}")
        for a, b in meta.items():
            if m.get_metadata(a) != b:
                fail("metadata", f"after {k}: metadata {a!r} is {m.get_metadata(a)!r}, was set to {b!r}")
        if last is None:
            continue
        fresh = GradientBooster(**cur)
        do_fit(fresh, *last)
        if pred_it != "unset":
            fresh.set_prediction_iteration(pred_it)
        for a, b in meta.items():
            fresh.insert_metadata(a, b)
        need_same_doc("history", fresh, m, f"after {k} ({[o[0] for o in c['ops']]})")
        r = diff(view(fresh, last[0]), view(m, last[0]))
        if r:
            fail("history", f"after {k}: fresh and used estimator differ at {r}")
    return fits > 1


if __name__ == "__main__":
    run("C25", "A case is a sequence of 2-8 operations on one Python estimator (fits on 1-3 data sets as arrays or frames with different or reordered columns, with or without evaluation sets, set_params, prediction iteration, scoring, explaining, inspecting, pickling, loading, metadata, rejected fits on the same or other columns); after each one the document, predictions, leaf indices, contributions, importances, node lists, names and history must equal those of a fresh estimator given only the current parameters and last fit. Non-trivial: at least two fits.",
        cases(), check, quick=7000, thorough=40000)
