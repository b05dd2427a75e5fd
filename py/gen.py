"""Case strategies and helpers shared by the Python checks. Cases are plain JSON values."""
import json, os, subprocess, sys
import numpy as np, pandas as pd
from hypothesis import strategies as st
from common import D, HarnessError, fail
from forust import GradientBooster

NAN = float("nan")
MAXSIZE = sys.maxsize
IMPORTANCE = ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"]
CONTRIB = ["Average", "Shapley", "Weight", "BranchDifference", "MidpointDifference", "ModeDifference", "ProbabilityChange"]
METRICS = ["AUC", "LogLoss", "RootMeanSquaredLogError", "RootMeanSquaredError"]
TREATMENTS = ["None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"]
DEFAULTS = dict(
    objective_type="LogLoss", iterations=100, learning_rate=0.3, max_depth=5, max_leaves=MAXSIZE, l1=0.0, l2=1.0, gamma=0.0, max_delta_step=0.0,
    min_leaf_weight=1.0, base_score=0.5, nbins=256, parallel=True, allow_missing_splits=True, monotone_constraints=None, subsample=1.0, top_rate=0.1,
    other_rate=0.2, colsample_bytree=1.0, seed=0, missing=NAN, create_missing_branch=False, sample_method=None, grow_policy="DepthWise",
    evaluation_metric=None, early_stopping_rounds=None, initialize_base_score=True, terminate_missing_features=None, missing_node_treatment="None",
    log_iterations=0, feature_importance_method="Gain", force_children_to_bound_parent=False,
)
INTS = [0.0, 1.0, 2.0, 3.0, -1.0, 5.0, 7.0]
DECS = [0.0, 0.5, 1.0, 0.1, 1 / 3, -2.75, 1e3, 2.0, 12.25, -0.1, 1e-3, 3.3]
COLKINDS = ["int", "dec", "bool", "float", "const", "dec", "int", "big"]
BIG = [0.0, 1.0, 16777217.0, 2147483648.0, 4294967297.0, -3e9, 2.0**53, -32769.0, 65536.0, 130.0]
EXT = [0.0, 1.0, 1e308, -1e308, float("inf"), -float("inf"), 5e-324, 1e-300]
ELEM = {
    "int": st.sampled_from(INTS), "dec": st.sampled_from(DECS), "bool": st.sampled_from([0.0, 1.0]),
    "float": st.floats(-100, 100, allow_nan=False).map(lambda v: v + 0.0), "const": st.just(2.0),
    "ext": st.sampled_from(EXT), "big": st.sampled_from(BIG),
}


def opt(draw, *vals):
    """Left out (None, the first choice) or one of the values."""
    i = draw(st.integers(0, len(vals)))
    return None if i == 0 else vals[i - 1]


@st.composite
def st_params(draw, cols, sampling=True, evals=True, sentinel=True, mono=True, iters=6):
    p = {"iterations": draw(st.integers(1, iters))}

    def put(k, v):
        if v is not None:
            p[k] = v

    put("objective_type", opt(draw, "LogLoss", "SquaredLoss", "SquaredLoss"))
    put("learning_rate", opt(draw, 0.3, 1.0, 0.1, 0.77))
    put("max_depth", opt(draw, 1, 2, 3, 6))
    put("max_leaves", opt(draw, MAXSIZE, 2, 3, 6))
    put("l1", opt(draw, 0.0, 0.05, 0.4))
    put("l2", opt(draw, 1.0, 0.1, 4.7))
    put("gamma", opt(draw, 0.0, 0.01, 0.3))
    put("max_delta_step", opt(draw, 0.0, 0.2, 1.3))
    p["min_leaf_weight"] = draw(st.sampled_from([0.1, 0.0, 0.4, 1.0, 3.0]))
    put("base_score", opt(draw, 0.5, 0.0, -1.25, 2.6))
    put("initialize_base_score", opt(draw, True, False))
    put("nbins", opt(draw, 256, 3, 7, 20))
    p["parallel"] = draw(st.booleans())
    put("allow_missing_splits", opt(draw, True, False))
    put("seed", opt(draw, 0, 1, 17, 99999, 2**53 + 1, 2**64 - 1))
    put("create_missing_branch", opt(draw, False, True, True))
    put("missing_node_treatment", opt(draw, *TREATMENTS))
    put("grow_policy", opt(draw, "DepthWise", "LossGuide"))
    put("log_iterations", opt(draw, 0, 1, 3))
    put("feature_importance_method", opt(draw, *IMPORTANCE))
    put("force_children_to_bound_parent", opt(draw, False, True))
    some = lambda: [j for j in range(cols) if draw(st.booleans())] if cols < 10 else sorted(draw(st.sets(st.integers(0, cols - 1), max_size=5)))
    if mono and draw(st.booleans()):
        p["monotone_constraints"] = [[j, draw(st.sampled_from([1, -1, 0]))] for j in some()]
    if draw(st.booleans()):
        p["terminate_missing_features"] = some()
    if sampling:
        put("subsample", opt(draw, 1.0, 0.5, 0.8))
        put("sample_method", opt(draw, "goss", "random", "Goss", "Random"))
        put("top_rate", opt(draw, 0.1, 0.3, 0.85))
        put("other_rate", opt(draw, 0.2, 0.5, 0.7))
        put("colsample_bytree", opt(draw, 1.0, 0.5, 0.7))
    if evals:
        put("evaluation_metric", opt(draw, *METRICS))
        put("early_stopping_rounds", opt(draw, 1, 2, 4))
    if sentinel:
        put("missing", opt(draw, -999.0, 0.0, 1.0, -1.5))
    return p


def bulk_data(cols, kinds, logloss, missing, n, seed):
    """More records than are drawn one by one, with labels that depend on the features."""
    r = np.random.RandomState(seed)
    pool = {"int": INTS, "dec": DECS, "bool": [0.0, 1.0], "const": [2.0], "ext": EXT, "big": BIG}
    x = np.empty((n, cols))
    for j in range(cols):
        x[:, j] = r.uniform(-100, 100, n) if kinds[j] == "float" else np.array(pool[kinds[j]])[r.randint(0, len(pool[kinds[j]]), n)]
    s = np.zeros(n)
    for j in range(cols):
        v = np.clip(x[:, j], -1e6, 1e6)
        s += r.choice([1.0, -1.0, 0.5]) * (v > np.median(v)) + 0.5 * (v == v.max())
        x[r.rand(n) < r.choice([0.0, 0.1, 0.4]), j] = missing
    s += r.normal(size=n) * 0.3
    if logloss:
        y = (s > np.median(s)).astype(float)
        y[0], y[-1] = 0.0, 1.0
    else:
        y = np.round(s * 8) / 8
    w = r.choice([1.0, 2.0, 0.5, 3.0, 0.1], n).tolist() if r.rand() < 0.5 else None
    return {"x": x.tolist(), "y": y.tolist(), "w": w}


@st.composite
def st_data(draw, cols, kinds, logloss, missing, max_rows=36, min_rows=1, bulk=0):
    if bulk and draw(st.booleans()):
        n = draw(st.integers(min_rows, bulk)) if draw(st.booleans()) else draw(st.sampled_from([bulk, bulk // 2, bulk * 3 // 4, bulk // 3]))
        return bulk_data(cols, kinds, logloss, missing, n, draw(st.integers(0, 2**32 - 1)))
    n = draw(st.integers(min_rows, max_rows))
    pm = [draw(st.sampled_from([0, 1, 3])) for _ in range(cols)]
    x = [[0.0] * cols for _ in range(n)]
    for j in range(cols):
        e = ELEM[kinds[j]]
        m = pm[j]
        el = e if m == 0 else st.one_of(*([e] * (4 - m)), st.just(None))
        col = draw(st.lists(el, min_size=n, max_size=n))
        for i in range(n):
            x[i][j] = missing if col[i] is None else col[i]
    if logloss:
        y = draw(st.lists(st.sampled_from([0.0, 1.0]), min_size=n, max_size=n))
        y[0] = 0.0
        y[-1] = 1.0 if n > 1 else y[-1]
    else:
        y = draw(st.lists(st.sampled_from([0.0, 1.0, 2.0, 5.5, -1.25, 0.1, 3.0]), min_size=n, max_size=n))
    w = None
    if draw(st.booleans()):
        w = draw(st.lists(st.sampled_from([1.0, 2.0, 0.5, 3.0, 0.1]), min_size=n, max_size=n))
    return {"x": x, "y": y, "w": w}


@st.composite
def st_case(draw, max_rows=36, max_cols=5, params=None, evals=True, ext=True, bulk=90, big=True, **kw):
    size = draw(st.integers(0, 59)) if big else 0  # rarely: many columns, or many records
    cols = draw(st.integers(1, max_cols)) if size != 59 else draw(st.sampled_from([12, 20, 40, 66, 130, 260]))
    pool = COLKINDS + ["ext"] if ext else COLKINDS
    kinds = [draw(st.sampled_from(pool)) for _ in range(min(cols, 9))]
    kinds = (kinds * cols)[:cols]
    p = draw(st_params(cols, evals=evals, **kw))
    logloss = p.get("objective_type", "LogLoss") == "LogLoss"
    miss = p.get("missing", NAN)
    some = lambda n, lo, b: draw(st_data(cols, kinds, logloss, miss, max_rows=n, min_rows=lo, bulk=b)) if cols < 10 else bulk_data(cols, kinds, logloss, miss, draw(st.integers(lo, n)), draw(st.integers(0, 2**32 - 1)))
    c = {"cols": cols, "params": p, "data": some(max_rows, 2, bulk), "evals": []}
    if evals and draw(st.booleans()):
        for _ in range(draw(st.one_of(st.integers(1, 2), st.integers(1, 6)))):
            c["evals"].append(some(8, 1, 0))
    c["probe"] = some(8, 1, 0)["x"]
    if big and size in (57, 58):
        for d in [c["data"]] + c["evals"]:
            if draw(st.booleans()):
                d["tile"] = 1 + draw(st.sampled_from([300, 1100, 5000, 11000, 21000, 70000])) // len(d["x"])
    c["names"] = draw(st_names(cols)) if draw(st.booleans()) else None
    return c


@st.composite
def st_names(draw, cols):
    pool = ["a", "b", "x", "y", "age", "0", "1", "2", "weird name", "Leaf", "é", "f0", "f1", 'quo"te', "", "ns[0]", "B", "z9"]
    if draw(st.integers(0, 4)) == 4:
        return list(draw(st.permutations(range(cols))))  # integer column labels that are not positions
    if cols > len(pool):
        return [f"c{(7 * j + 3) % cols}_{j}" for j in range(cols)]
    idx = draw(st.permutations(range(len(pool))))
    return [pool[i] for i in idx[:cols]]


def kwargs(p, names=None):
    """Python keyword arguments of a case's parameters; constraints keyed by name if names are given."""
    k = dict(p)
    key = (lambda j: names[j]) if names is not None else (lambda j: j)
    if "monotone_constraints" in k:
        k["monotone_constraints"] = {key(j): v for j, v in k["monotone_constraints"]}
    if "terminate_missing_features" in k:
        k["terminate_missing_features"] = {key(j) for j in k["terminate_missing_features"]}
    return k


def arr(x, cols=None):
    a = np.array(x, dtype="float64")
    return a.reshape(-1, cols) if cols is not None else a


def tiled(d, a):
    """The records repeated, where the case asks for it."""
    return np.tile(a, (d["tile"],) + (1,) * (a.ndim - 1)) if d.get("tile", 1) > 1 else a


def xmat(c, part=None):
    d = part or c["data"]
    return tiled(d, arr(d["x"], c["cols"]))


def yv(d):
    return tiled(d, arr(d["y"]))


def frame(c, part=None, names=None):
    return pd.DataFrame(xmat(c, part), columns=names or c["names"])


def wts(d):
    return None if d["w"] is None else tiled(d, arr(d["w"]))


def build(c, names=None):
    return GradientBooster(**kwargs(c["params"], names))


def inputs(c, names=None):
    """(X, y, w, evals) as plain contiguous arrays or, with names, as frames."""
    f = (lambda d: frame(c, d, names)) if names is not None else (lambda d: xmat(c, d))
    ev = [(f(e), yv(e)) + (() if e["w"] is None else (wts(e),)) for e in c["evals"]]
    return f(c["data"]), yv(c["data"]), wts(c["data"]), ev or None


def fit(c, names=None):
    m = build(c, names)
    X, y, w, ev = inputs(c, names)
    return m.fit(X, y, sample_weight=w, evaluation_data=ev)


def doc(m, drop=("metadata",)):
    d = json.loads(m.json_dump())
    for k in drop:
        d.pop(k, None)
    if isinstance(d.get("terminate_missing_features"), list):
        d["terminate_missing_features"] = sorted(d["terminate_missing_features"])
    return d


def same(a, b):
    """Equality of JSON-like values, NaN equal to NaN."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b if isinstance(a, bool) or isinstance(b, bool) else a == b


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} is only in one"
            r = diff(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    return None if same(a, b) else f"{path}: {a!r} != {b!r}"


def biteq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))


def need_same_doc(kind, a, b, what, drop=("metadata",)):
    r = diff(doc(a, drop), doc(b, drop))
    if r:
        fail(kind, f"{what}: the models differ at {r}")


def need_eq(kind, a, b, what):
    if not biteq(a, b):
        fail(kind, f"{what}: {np.asarray(a).tolist()!r:.300} != {np.asarray(b).tolist()!r:.300}")


def has_split(m):
    return any(len(t["nodes"]) > 1 for t in json.loads(m.json_dump())["trees"])


class Core:
    """The core library, without the Python package, on the same case (a server process)."""

    proc = None

    @classmethod
    def fit(cls, c):
        if cls.proc is None or cls.proc.poll() is not None:
            exe = os.path.join(D, ".build", "rs", "release", "corefit")
            cls.proc = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(os.environ, RAYON_NUM_THREADS="2"))
        p = dict(DEFAULTS, **c["params"])
        f = lambda v: repr(float(v))
        q = lambda d: {
            "rows": len(d["x"]) * d.get("tile", 1), "cols": c["cols"], "x_colmajor": [v for j in range(c["cols"]) for v in [f(r[j]) for r in d["x"]] * d.get("tile", 1)],
            "y": [f(v) for v in d["y"]] * d.get("tile", 1), "w": [f(v) for v in (d["w"] or [1.0] * len(d["y"]))] * d.get("tile", 1),
        }
        sm = p["sample_method"]
        sample = 0 if sm is None else (2 if sm.lower() == "goss" else 1)
        if p["subsample"] < 1 and sample == 0:
            sample = 1
        params = {
            "logloss": p["objective_type"] == "LogLoss", "iterations": p["iterations"], "max_depth": p["max_depth"], "max_leaves": p["max_leaves"],
            "nbins": p["nbins"], "parallel": p["parallel"], "allow_missing_splits": p["allow_missing_splits"],
            "mono": [[j, v] for j, v in (p["monotone_constraints"] or [])], "colsample": f(p["colsample_bytree"]), "seed": p["seed"],
            "missing_branch": p["create_missing_branch"], "sample": sample, "lossguide": p["grow_policy"] == "LossGuide",
            "metric": None if p["evaluation_metric"] is None else METRICS.index(p["evaluation_metric"]), "esr": p["early_stopping_rounds"],
            "init_base": p["initialize_base_score"], "terminate": p["terminate_missing_features"] or [],
            "treatment": TREATMENTS.index(p["missing_node_treatment"]), "log_iterations": p["log_iterations"], "force_bound": p["force_children_to_bound_parent"],
        }
        for k in ("learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "base_score", "subsample", "top_rate", "other_rate", "missing"):
            params[k] = f(p[k])
        msg = {
            "kind": "py", "params": params, "data": q(c["data"]), "evals": [q(e) for e in c["evals"]],
            "probes": [[f(v) for v in r] for r in c["probe"]], "nums": {}, "strs": {}, "extra": None,
        }
        cls.proc.stdin.write(json.dumps(msg) + "\n")
        cls.proc.stdin.flush()
        line = cls.proc.stdout.readline()
        if not line:
            raise HarnessError("the core reference process ended")
        r = json.loads(line)
        if "harness_error" in r:
            raise HarnessError(r["harness_error"])
        return r


def fl(v):
    return np.array([float(x) for x in v], dtype="float64")
