"""C20 (Python part): invalid input raises a Python exception, valid input never crashes."""
import os, tempfile
import numpy as np, pandas as pd
from hypothesis import strategies as st
from common import run, fail
from gen import *

FIELDS = ["learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample", "top_rate", "other_rate", "colsample_bytree"]
BADV = [NAN, -1.0, -1e-3, -float("inf")]


@st.composite
def cases(draw):
    c = draw(st_case(max_rows=20, max_cols=4))
    c["kind"] = draw(st.sampled_from(["param", "label", "weight", "eval_label", "eval_weight", "eval_columns", "text", "corrupt", "nofile", "valid"]))
    c["field"] = draw(st.sampled_from(FIELDS))
    c["badv"] = draw(st.sampled_from(BADV))
    c["at"] = draw(st.integers(0, 50))
    c["text"] = draw(st.one_of(st.text(max_size=40), st.sampled_from(["{}", "[]", "null", "{\"trees\": []}", "", "1", "\"x\""])))
    c["other"] = draw(st.sampled_from(["same", "same", "renamed", "permuted", "extra", "array", "fewer"]))
    c["cut"] = draw(st.integers(0, 10**6))
    c["flip"] = draw(st.sampled_from(["cut", "drop", "type", "char", "trees"]))
    return c


def refused(kind, f, what):
    try:
        f()
    except ValueError:
        return
    except BaseException as e:
        fail(kind, f"{what}: raises {type(e).__name__} instead of ValueError: {str(e)[:200]}")
    fail(kind, f"{what}: accepted")


def other(c, X):
    """The features of a fit that is to be refused: not those of the fit before."""
    if c["names"] is None:
        v = np.asarray(X)
        if c["other"] == "renamed":
            return pd.DataFrame(v, columns=[f"n{j}" for j in range(v.shape[1])]) if not constrained(c) else X
        return np.column_stack([v, v[:, 0]]) if c["other"] == "extra" else X
    if c["other"] == "renamed" and not constrained(c):
        return X.set_axis([f"n{j}" for j in range(X.shape[1])], axis=1)
    if c["other"] == "permuted":
        return X[list(X.columns[::-1])]
    if c["other"] == "extra":
        return X.assign(**{"one more": 1.0})
    if c["other"] == "array" and not constrained(c):
        return X.to_numpy()
    if c["other"] == "fewer" and X.shape[1] > 1 and not constrained(c):
        return X[list(X.columns[1:])]
    return X


def constrained(c):
    return bool(c["params"].get("monotone_constraints") or c["params"].get("terminate_missing_features"))


def state(m):
    v = [getattr(m, "n_features_", None), getattr(m, "feature_names_in_", None), m.base_score, m.number_of_trees, m.feature_importances_.tolist()]
    return v + [m.calculate_feature_importance("Gain"), m.trees_to_dataframe().to_dict("list"), m.get_params()]


def check(c, ctx):
    k = c["kind"]
    ctx.label(k)
    names = c["names"]
    if k == "param":
        refused(k, lambda: GradientBooster(**dict(kwargs(c["params"], names), **{c["field"]: c["badv"]})), f"{c['field']}={c['badv']}")
        m = build(c, names)
        refused(k, lambda: m.set_params(**{c["field"]: c["badv"]}), f"set_params({c['field']}={c['badv']})")
        return True
    X, y, w, ev = inputs(c, names)
    m = fit(c, names)
    P = xmat(c, {"x": c["probe"]})
    PX = pd.DataFrame(P, columns=names) if names else P
    before, pred, st0 = doc(m, ()), m.predict(PX), state(m)
    if np.isnan(pred).any():
        fail("valid", f"NaN predictions {pred.tolist()} on valid input")
    if k in ("label", "weight", "eval_label", "eval_weight"):
        Z = other(c, X)
        if Z is not X:
            ctx.label(f"refused on other columns: {c['other']}")
            ev = None
            X = Z
    if k == "label":
        y[c["at"] % len(y)] = NAN
        refused(k, lambda: m.fit(X, y, sample_weight=w, evaluation_data=ev), "NaN label")
    elif k == "weight":
        w = np.ones(len(y)) if w is None else w
        w[c["at"] % len(y)] = c["badv"]
        refused(k, lambda: m.fit(X, y, sample_weight=w, evaluation_data=ev), f"weight {c['badv']}")
    elif k in ("eval_label", "eval_weight"):
        EX, ey = X.copy(), y.copy()
        ew = np.ones(len(ey))
        (ey if k == "eval_label" else ew)[c["at"] % len(ey)] = NAN if k == "eval_label" else c["badv"]
        refused(k, lambda: m.fit(X, y, sample_weight=w, evaluation_data=(ev or []) + [(EX, ey, ew)]), f"evaluation set with {k} {c['badv']}")
    elif k == "eval_columns" and isinstance(X, pd.DataFrame):
        # the last evaluation frame does not have the columns of the training frame
        bad = [X.rename(columns={X.columns[c["at"] % X.shape[1]]: "renamed"}), X.assign(**{"one more": 1.0}), X[list(X.columns[::-1])] if X.shape[1] > 1 else X.assign(u=0.0),
               X.set_axis([f"n{j}" for j in range(X.shape[1])], axis=1)][c["cut"] % 4]
        Z = other(c, X)
        Z = Z if isinstance(Z, pd.DataFrame) and list(Z.columns) != list(bad.columns) else X
        refused(k, lambda: m.fit(Z, y, sample_weight=w, evaluation_data=[(bad, y)]), f"evaluation data with columns {list(bad.columns)} for {list(Z.columns)}")
    elif k in ("text", "corrupt", "nofile"):
        path = os.path.join(tempfile.gettempdir(), f"vh-c20-{os.getpid()}.json")
        if k == "text":
            s = c["text"].encode("utf-8", "surrogatepass")
        elif k == "corrupt":
            s = m.json_dump()
            j = json.loads(s)
            if c["flip"] == "cut":
                s = s[: c["cut"] % len(s)]
            elif c["flip"] == "char":
                i = c["cut"] % len(s)
                s = s[:i] + "}{[]\",:x0-e"[c["at"] % 11] + s[i + 1 :]
            else:
                key = sorted(j)[c["cut"] % len(j)]
                if c["flip"] == "drop":
                    del j[key]
                elif c["flip"] == "type":
                    j[key] = [None, "x", -1, [], {}, 1e300, True][c["at"] % 7]
                elif j["trees"]:
                    n = j["trees"][0]["nodes"]
                    n = n[c["cut"] % len(n)] if isinstance(n, list) else n[sorted(n)[0]]
                    n[sorted(n)[c["at"] % len(n)]] = [None, "x", -1, [], 1e300][c["at"] % 5]
                s = json.dumps(j)
            s = s.encode()
        try:
            if k != "nofile":
                with open(path, "wb") as f:
                    f.write(s)
            try:
                r = GradientBooster.load_booster(path)
                r.get_params()
                ctx.label("loads")
            except ValueError:
                ctx.label("refused")
            except BaseException as e:
                fail(k, f"loading {s if k != 'nofile' else path!r}: {type(e).__name__}: {e}")
        finally:
            if os.path.exists(path):
                os.remove(path)
    if diff(before, doc(m, ())):
        fail("unchanged", f"{k}: a refused fit changed the model at {diff(before, doc(m, ()))}")
    if diff(st0, state(m)):
        fail("unchanged", f"{k}: a refused fit changed what the estimator reports at {diff(st0, state(m))}")
    need_eq("unchanged", m.predict(PX), pred, f"{k}: predictions after a refused fit")
    return True


if __name__ == "__main__":
    run("C20", "A case is a Python estimator with one invalid parameter, label, weight or evaluation value at a random position, or evaluation frame with other columns, or a model file with arbitrary or corrupted content; it must be refused with ValueError (never a panic), leave document (metadata included), predictions, feature names, importances and parameters of the fitted model unchanged, whatever columns the refused data has, and corrupted files either load or raise ValueError. Every case is non-trivial.",
        cases(), check, quick=9000, thorough=60000)
