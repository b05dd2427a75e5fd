"""C23: Python estimators survive save, pickle, copy, clone and parameter round trips."""
import copy, os, pickle, shutil, tempfile, warnings
import numpy as np, pandas as pd
from hypothesis import strategies as st
from sklearn.base import clone
from common import run, fail
from gen import *
from forust.serialize import NumpySerializer, ObjectSerializer, ScalerSerializer

WAYS = ["save", "json_file", "pickle0", "pickle2", "pickle5", "deepcopy", "copy", "save_twice", "pickle_of_loaded"]
F32 = {"learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample"}
NULLABLE = ["monotone_constraints", "sample_method", "evaluation_metric", "early_stopping_rounds", "terminate_missing_features"]
TEXT = st.one_of(st.text(st.characters(exclude_categories=["Cs"]), max_size=12), st.text(alphabet="'\"\\ab\n\t{}[]%$\0\r\u2028", max_size=6))
TMP = tempfile.mkdtemp(prefix="vh-c23-") if "--shard" in __import__("sys").argv or "--replay" in __import__("sys").argv else None


def scalar():
    return st.one_of(st.integers(-(10**20), 10**20), st.floats(allow_nan=False, allow_infinity=False), TEXT, st.booleans(), st.none())


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["trip", "trip", "trip", "params", "clone", "serialize", "unfitted"]))
    if kind == "serialize":
        return {
            "kind": kind, "scalar": draw(scalar()), "obj": draw(st.one_of(st.lists(scalar(), max_size=5), st.dictionaries(TEXT, scalar(), max_size=4))),
            "shape": draw(st.lists(st.integers(0, 4), max_size=3)), "dtype": draw(st.sampled_from(["f8", "f4", "i8", "i4", "u1", "?", "f2"])), "seed": draw(st.integers(0, 10**6)),
        }
    c = draw(st_case(max_rows=24, max_cols=4))
    c["kind"] = kind
    c["ways"] = draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3))
    c["meta"] = [[k, v] for k, v in draw(st.dictionaries(TEXT, TEXT, max_size=3)).items()]
    c["pred_it"] = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, "none"]))
    c["new"] = draw(st_params(c["cols"]))
    c["new"].pop("missing", None)
    c["new"].pop("objective_type", None)
    # any of the new parameters, and some set back to None
    keep = [k for k in c["new"] if draw(st.integers(0, 3)) > 0]
    c["new"] = {k: c["new"][k] for k in keep}
    if kind == "params":
        c["none"] = [k for k in NULLABLE if draw(st.integers(0, 3)) == 3]
    c["refit_names"] = draw(st.booleans())
    return c


def through(m, way):
    if way in ("save", "save_twice", "json_file", "pickle_of_loaded"):
        path = os.path.join(TMP, f"m{os.getpid()}.json")
        if way == "json_file":
            with open(path, "w", encoding="utf-8") as f:
                f.write(m.json_dump())
        else:
            m.save_booster(path)
        r = GradientBooster.load_booster(path)
        if way == "save_twice":
            r.save_booster(path)
            r = GradientBooster.load_booster(path)
        os.remove(path)
        return pickle.loads(pickle.dumps(r)) if way == "pickle_of_loaded" else r
    if way.startswith("pickle"):
        return pickle.loads(pickle.dumps(m, protocol=int(way[-1])))
    return copy.deepcopy(m) if way == "deepcopy" else copy.copy(m)


def same_param(a, b, k, lossy):
    if k in F32 and lossy:
        return float(np.float32(a)) == float(np.float32(b))
    if k == "terminate_missing_features":
        return set(a or ()) == set(b or ())
    if k == "monotone_constraints":
        return (a or {}) == (b or {})
    if k == "sample_method" and lossy:
        return (a or "none").lower() == (b or "none").lower()
    if k == "missing":
        return same(float(a), float(b))
    return same(a, b)


def compare_params(kind, a, b, lossy, what, sub=None):
    pa, pb = a, b
    if pa.keys() != pb.keys():
        fail(kind, f"{what}: parameter names differ: {sorted(pa.keys() ^ pb.keys())}")
    for k in pa:
        x = pa[k]
        if k == "sample_method" and lossy and x is None and sub is not None and sub < 1:
            x = "Random"  # the documented automatic choice
        if not same_param(x, pb[k], k, lossy):
            fail(kind, f"{what}: parameter {k} is {pb[k]!r}, was {pa[k]!r}")


def results(m, X, logloss):
    r = [m.predict(X), m.predict_leaf_indices(X)]
    for meth in ("Average", "Shapley", "Weight", "ModeDifference"):
        r.append(m.predict_contributions(X, method=meth))
    return r


def check(c, ctx):
    ctx.label("kind " + c["kind"])
    if c["kind"] == "serialize":
        got = ScalerSerializer().deserialize(ScalerSerializer().serialize(c["scalar"]))
        if type(got) is not type(c["scalar"]) or got != c["scalar"]:
            fail("serialize", f"ScalerSerializer turns {c['scalar']!r} into {got!r}")
        for o in (c["obj"], c["scalar"]):
            got = ObjectSerializer().deserialize(ObjectSerializer().serialize(o))
            if got != o or type(got) is not type(o):
                fail("serialize", f"ObjectSerializer turns {o!r} into {got!r}")
        a = np.random.default_rng(c["seed"]).normal(size=tuple(c["shape"])) * 50
        a = np.asarray(np.abs(a) if c["dtype"] == "u1" else a).astype(c["dtype"])
        for b in (a, np.asfortranarray(a) if a.ndim else a, a[::-1] if a.ndim else a):
            got = NumpySerializer().deserialize(NumpySerializer().serialize(b))
            if got.dtype != b.dtype or got.shape != b.shape or not np.array_equal(got, b):
                fail("serialize", f"NumpySerializer turns {b!r} into {got!r}")
        return a.size > 1
    names = c["names"]
    logloss = c["params"].get("objective_type", "LogLoss") == "LogLoss"
    given = kwargs(c["params"], names)
    X, y, w, ev = inputs(c, names)
    P = xmat(c, {"x": c["probe"]})
    PX = pd.DataFrame(P, columns=names) if names else P
    m = GradientBooster(**given)
    sub = given.get("subsample", 1.0)
    # what was passed is what get_params returns
    want = dict(DEFAULTS, **given)
    compare_params("get_params", want, m.get_params(), False, "a new estimator")
    for k, v in c["meta"]:
        m.insert_metadata(k, v)
    meta = dict((k, v) for k, v in c["meta"])
    if c["kind"] == "unfitted":
        for way in c["ways"]:
            r = through(m, way)
            lossy = way in ("save", "json_file", "save_twice", "pickle_of_loaded")
            if not (lossy and names):  # an unfitted estimator has no names yet to refer to
                compare_params("unfitted", {k: v for k, v in want.items() if not (lossy and k in ("monotone_constraints", "terminate_missing_features"))},
                               {k: v for k, v in r.get_params().items() if not (lossy and k in ("monotone_constraints", "terminate_missing_features"))}, lossy, f"unfitted through {way}", sub)
            for k, v in meta.items():
                if r.get_metadata(k) != v:
                    fail("metadata", f"{way}: metadata {k!r} is {r.get_metadata(k)!r}, was {v!r}")
            if not lossy:
                m2 = build(c, names).fit(X, y, sample_weight=w, evaluation_data=ev)
                r.fit(X, y, sample_weight=w, evaluation_data=ev)
                need_same_doc("unfitted", m2, r, f"fitted after {way}")
                return has_split(m2)
        return False
    m.fit(X, y, sample_weight=w, evaluation_data=ev)
    after = dict(want, base_score=m.base_score)
    compare_params("get_params", after, m.get_params(), False, "after fit")
    if not want["initialize_base_score"] and m.base_score != want["base_score"]:
        fail("get_params", f"base score {want['base_score']} became {m.base_score} in fit")
    nt = has_split(m)
    if c["pred_it"] == "none":
        m.set_prediction_iteration(0)
    elif c["pred_it"] and c["pred_it"] <= m.number_of_trees:
        m.set_prediction_iteration(c["pred_it"])
    base = results(m, PX, logloss)
    if c["kind"] == "clone":
        q = clone(m)
        if getattr(q, "n_features_", None) is not None or q.number_of_trees != 0:
            fail("clone", "the clone is fitted")
        compare_params("clone", m.get_params(), q.get_params(), False, "clone")
        q.fit(X, y, sample_weight=w, evaluation_data=ev)
        q.set_prediction_iteration(m.prediction_iteration)
        need_same_doc("clone", m, q, "fitted clone")
        for a, b in zip(base, results(m, PX, logloss)):
            need_eq("clone", a, b, "cloning changed the original")
        return nt
    if c["kind"] == "params":
        new = kwargs(c["new"], names)
        for k in c.get("none", []):
            new[k] = None
            ctx.label("set back to None")
        r = m.set_params(**new)
        if r is not m:
            fail("set_params", "set_params does not return the estimator")
        merged = dict(after, **new)
        compare_params("set_params", merged, m.get_params(), False, "after set_params")
        fresh = GradientBooster(**merged)
        m.fit(X, y, sample_weight=w, evaluation_data=ev)
        fresh.fit(X, y, sample_weight=w, evaluation_data=ev)
        need_same_doc("set_params", fresh, m, "fitted after set_params")
        need_eq("set_params", m.predict(PX), fresh.predict(PX), "predictions after set_params")
        need_eq("set_params", m.feature_importances_, fresh.feature_importances_, "importances after set_params")
        return nt
    q = m
    lossy = False
    for way in c["ways"]:
        q = through(q, way)
        lossy |= way in ("save", "json_file", "save_twice", "pickle_of_loaded")
        what = "after " + ", ".join(c["ways"])
        ctx.label("way " + way)
    compare_params("trip", after, q.get_params(), lossy, what, sub)
    for a in ("n_features_", "feature_names_in_", "feature_importance_method", "best_iteration", "prediction_iteration", "number_of_trees", "base_score"):
        x, z = getattr(m, a, "absent"), getattr(q, a, "absent")
        if not same(x, z):
            fail("trip", f"{what}: {a} is {z!r}, was {x!r}")
    need_same_doc("trip", m, q, what, drop=())
    h, g = m.get_evaluation_history(), q.get_evaluation_history()
    if (h is None) != (g is None):
        fail("trip", f"{what}: evaluation history lost")
    if h is not None:
        need_eq("trip", h, g, f"{what}: evaluation history")
    for k, v in meta.items():
        if q.get_metadata(k) != v:
            fail("metadata", f"{what}: metadata {k!r} is {q.get_metadata(k)!r}, was {v!r}")
    try:
        q.get_metadata("no such key \u2603\u2603")
        fail("metadata", "a key never stored has a value")
    except KeyError:
        pass
    for i, (a, b) in enumerate(zip(base, results(q, PX, logloss))):
        need_eq("trip", a, b, f"{what}: result {i}")
    if q.feature_importances_.shape != m.feature_importances_.shape or not np.allclose(q.feature_importances_, m.feature_importances_, rtol=1e-5, atol=1e-7, equal_nan=True):
        fail("trip", f"{what}: feature importances {q.feature_importances_} were {m.feature_importances_}")
    if names:
        try:
            q.predict(pd.DataFrame(P, columns=["zz" + str(n) for n in names]))
            fail("trip", f"{what}: other column names are accepted")
        except ValueError:
            pass
    # refit, on both
    q.fit(X, y, sample_weight=w, evaluation_data=ev)
    m.fit(X, y, sample_weight=w, evaluation_data=ev)
    need_same_doc("refit", m, q, f"{what}, refitted", drop=())
    return nt


if __name__ == "__main__":
    try:
        run("C23", "A case is an estimator with random full parameters (constraints and terminate features keyed by name or index), metadata of arbitrary text and, mostly, a fit on an array or frame with evaluation sets; it goes through 1-3 of save/load, JSON text file, pickle protocols 0/2/5, copy, deepcopy and combinations, or through clone or set_params, and is compared in parameters, attributes, document, history, metadata, predictions, leaf indices, four contribution methods, importances and after a refit. Serializers are checked on arbitrary scalars, lists, dictionaries and arrays. Non-trivial: the model has a split (or the array more than one element).",
            cases(), check, quick=9000, thorough=40000,
            assumptions=["single-precision parameters come back rounded to single precision from a saved file; sample_method None with subsample<1 comes back as the documented automatic Random"])
    finally:
        if TMP:
            shutil.rmtree(TMP, ignore_errors=True)
