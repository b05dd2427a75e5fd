"""C26 (Python part): every keyword reaches the parameter it names."""
import os, tempfile
import numpy as np, pandas as pd
from hypothesis import strategies as st
from common import run, fail
from gen import *

ALIASES = {
    "weight": "Weight", "average": "Average", "branch-difference": "BranchDifference", "branchdifference": "BranchDifference", "midpoint-difference": "MidpointDifference",
    "midpointdifference": "MidpointDifference", "mode-difference": "ModeDifference", "modedifference": "ModeDifference", "probabilitychange": "ProbabilityChange", "probability-change": "ProbabilityChange",
}
F32 = {"learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample"}
BAD = [("objective_type", "Logloss"), ("objective_type", "poisson"), ("grow_policy", "Depthwise"), ("evaluation_metric", "auc"), ("missing_node_treatment", "none"), ("missing_node_treatment", "Average"),
       ("learning_rate", -0.1), ("l1", -1.0), ("l2", -0.5), ("gamma", -2.0), ("max_delta_step", -1.0), ("min_leaf_weight", -1.0), ("subsample", -0.5), ("learning_rate", NAN), ("l2", NAN), ("gamma", NAN),
       ("top_rate", -0.1), ("other_rate", -0.1), ("top_rate", NAN), ("colsample_bytree", -1.0)]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["fit", "fit", "names", "names", "alias", "bad", "distinct"]))
    c = draw(st_case(max_rows=30, max_cols=5))
    c["kind"] = kind
    if kind == "names":
        c["names"] = draw(st_names(c["cols"]))
        if draw(st.booleans()):
            c["params"]["monotone_constraints"] = [[j, draw(st.sampled_from([1, -1, 0]))] for j in draw(st.permutations(range(c["cols"])))]
    if kind == "distinct":
        # every numeric keyword its own value
        fs = draw(st.lists(st.integers(1, 900), min_size=10, max_size=10, unique=True))
        for k, v in zip(["learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample", "top_rate", "other_rate", "colsample_bytree"], fs):
            c["params"][k] = v / 1000.0
        c["params"]["l2"] += 0.2
        us = draw(st.lists(st.integers(1, 60), min_size=7, max_size=7, unique=True))
        for k, v in zip(["iterations", "max_depth", "max_leaves", "nbins", "seed", "early_stopping_rounds", "log_iterations"], us):
            c["params"][k] = v
        c["params"]["iterations"] = min(c["params"]["iterations"], 8)
        c["params"]["nbins"] += 2
    c["bad"] = draw(st.integers(0, len(BAD) - 1))
    c["alias"] = draw(st.sampled_from(sorted(ALIASES)))
    return c


def expected(p, cols_of=None, fitted=False):
    """What the dump has to report for these keyword arguments."""
    p = dict(DEFAULTS, **p)
    e = {}
    for k, v in p.items():
        if k in ("feature_importance_method",):
            continue
        if k == "monotone_constraints":
            v = {str(j): {1: "Positive", -1: "Negative", 0: "Unconstrained"}[s] for j, s in (v or [])} if fitted else {}
        elif k == "terminate_missing_features":
            v = sorted(v or []) if fitted else []
        elif k == "sample_method":
            v = "None" if v is None else {"goss": "Goss", "random": "Random"}[v.lower()]
            if v == "None" and p["subsample"] < 1:
                v = "Random"
        elif k == "missing" and v != v:
            v = None
        e[k] = v
    return e


def compare(m, e, what, skip=()):
    d = doc(m)
    for k, v in e.items():
        if k in skip:
            continue
        if k not in d:
            fail("keyword", f"{what}: the dump has no {k}")
        ok = float(np.float32(v)) == float(np.float32(d[k])) if k in F32 else (same(v, d[k]) and isinstance(v, bool) == isinstance(d[k], bool))
        if not ok:
            fail("keyword", f"{what}: {k}={v!r} given, the dump reports {d[k]!r}")


def check(c, ctx):
    ctx.label("kind " + c["kind"])
    p = c["params"]
    d0 = GradientBooster()
    if not all(same(v, DEFAULTS[k]) or (k in ("monotone_constraints", "terminate_missing_features") and not v) for k, v in d0.get_params().items()) or set(d0.get_params()) != set(DEFAULTS):
        fail("defaults", f"the defaults are {d0.get_params()}")
    compare(d0, expected({}), "no keyword")
    if c["kind"] == "bad":
        k, v = BAD[c["bad"]]
        try:
            GradientBooster(**dict(kwargs(p), **{k: v}))
        except ValueError:
            return True
        fail("bad", f"{k}={v!r} is accepted")
    names = c["names"] if c["kind"] == "names" else None
    m = build(c, names)
    compare(m, expected(p), "unfitted")
    X, y, w, ev = inputs(c, names)
    m.fit(X, y, sample_weight=w, evaluation_data=ev)
    init = p.get("initialize_base_score", True)
    compare(m, expected(p, fitted=True), "fitted", skip=("base_score",) if init else ())
    core = Core.fit(c)
    if "doc" not in core:
        fail("core", f"Python fits what the core library rejects: {core}")
    r = diff(json.loads(core["doc"]) | {"metadata": 0, "terminate_missing_features": 0}, doc(m) | {"metadata": 0, "terminate_missing_features": 0})
    if r:
        fail("training", f"the model trained with these keywords differs from the core library's with the same parameters at {r}")
    # read back from the dump, they are still the parameters given
    fd, path = tempfile.mkstemp(prefix="vh-c26-", suffix=".json")
    os.close(fd)
    try:
        m.save_booster(path)
        got = GradientBooster.load_booster(path).get_params()
    finally:
        os.remove(path)
    for k, v in dict(DEFAULTS, **kwargs(p, names)).items():
        g = got.get(k, "absent")
        if k in ("monotone_constraints", "terminate_missing_features"):
            ok = (v or None) == (g or None) or (k[0] == "t" and set(v or ()) == set(g or ()))
        elif k == "sample_method":
            v = v or ("Random" if p.get("subsample", 1.0) < 1 else "None")
            ok = (g or "None").lower() == v.lower()
        elif k in ("base_score", "feature_importance_method"):
            continue
        else:
            ok = float(np.float32(v)) == float(np.float32(g)) if k in F32 else same(v, g)
        if not ok:
            fail("keyword", f"{k}={v!r} given, a saved and loaded model has {g!r}")
    P = xmat(c, {"x": c["probe"]})
    if c["kind"] == "names":
        # the same constraint given by another key is another parameter: unknown names are refused
        bad = GradientBooster(**dict(kwargs(p, names), monotone_constraints={"no such column": 1}))
        try:
            bad.fit(X, y)
            fail("names", "a constraint on an unknown column is accepted")
        except (KeyError, ValueError):
            pass
        # by index on an array gives the same
        a = build(c)
        Xa, y, w, eva = inputs(c)
        a.fit(Xa, y, sample_weight=w, evaluation_data=eva)
        need_same_doc("names", a, m, "keys by name and by index")
    if c["kind"] == "alias":
        full = ALIASES[c["alias"]]
        if full == "ProbabilityChange" and p.get("objective_type", "LogLoss") != "LogLoss":
            return False
        need_eq("alias", m.predict_contributions(P, method=c["alias"]), m.predict_contributions(P, method=full), f"contribution methods {c['alias']} and {full}")
        need_eq("alias", m.predict_contributions(P), m.predict_contributions(P, method="Average"), "the default contribution method")
        got = m.calculate_feature_importance()
        want = m.calculate_feature_importance("Gain", True)
        if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-6 for k in got):
            fail("alias", f"default importance {got}, normalised Gain {want}")
        for bad in ("Averages", "shap", ""):
            try:
                m.predict_contributions(P, method=bad)
            except ValueError:
                continue
            fail("alias", f"contribution method {bad!r} is accepted")
    return has_split(m)


if __name__ == "__main__":
    run("C26", "A case is a random set of Python keyword arguments (every numeric one distinct in a third of the cases), constraints and terminate features keyed by index or by column name in any order, method aliases or one invalid value. Each keyword must be what the dump reports before and after fit, omitted ones have the documented defaults, the fitted model must equal the core library's model trained with the same parameters through no Python, invalid values are refused. Non-trivial: the model has a split, or an invalid value was refused.",
        cases(), check, quick=9000, thorough=40000)
