"""C14 (Python part): the partial dependence grid."""
import numpy as np, pandas as pd
from hypothesis import strategies as st
from common import run, fail
from gen import *
from ref import RModel


@st.composite
def cases(draw):
    c = draw(st_case(max_rows=40, max_cols=4, ext=False))
    c["feature"] = draw(st.integers(0, c["cols"] - 1))
    c["by_name"] = draw(st.booleans())
    c["samples"] = draw(st.sampled_from([None, 1, 2, 5, 11]))
    c["exclude"] = draw(st.booleans())
    c["default"] = draw(st.booleans())
    lo = draw(st.sampled_from([0.2, 0.0, 0.05, 0.5]))
    c["bounds"] = [lo, draw(st.sampled_from([0.98, 1.0, 0.75, lo]))]
    c["pred_it"] = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, "none"]))
    c["dtype"] = draw(st.sampled_from(["f8", "f8", "f4", "i8", "?", "object"]))
    c["fit_array"] = draw(st.booleans())
    return c


def check(c, ctx):
    names = c["names"] if c["names"] and all(isinstance(n, str) for n in c["names"]) else None
    j = c["feature"]
    m = fit(c, None if c["fit_array"] else names)
    if c["pred_it"] == "none":
        m.set_prediction_iteration(0)
    elif c["pred_it"] and c["pred_it"] <= m.number_of_trees:
        m.set_prediction_iteration(c["pred_it"])
    r = RModel(m)
    A = xmat(c)
    vals = np.array([v for v in A[:, j] if not r.is_missing(v)])
    if len(vals) == 0:
        return False
    X = A
    col = A[:, j]
    if names and c["dtype"] != "f8" and not np.isnan(col).any() and (c["dtype"] == "object" or np.array_equal(col.astype(c["dtype"]).astype("f8"), col)):
        X = pd.DataFrame(A, columns=names).astype({names[j]: c["dtype"]})
        ctx.label("column dtype " + c["dtype"])
    elif c["dtype"] != "f8" and (c["dtype"] == "object" or (not np.isnan(A).any() and np.array_equal(A.astype(c["dtype"]).astype("f8"), A))):
        X = A.astype(c["dtype"])
        ctx.label("dtype " + c["dtype"])
    kw = {} if c["default"] else dict(samples=c["samples"], exclude_missing=c["exclude"], percentile_bounds=tuple(c["bounds"]))
    samples, excl, (lo, hi) = (100, True, (0.2, 0.98)) if c["default"] else (c["samples"], c["exclude"], c["bounds"])
    if names and not isinstance(X, pd.DataFrame):
        X = pd.DataFrame(X, columns=names)
    feat = names[j] if names and c["by_name"] else j
    got = m.partial_dependence(X, feat, **kw)
    grid = sorted(set(vals.tolist())) if samples is None else np.quantile(vals, np.linspace(lo, hi, num=samples)).tolist()
    if not excl:
        grid = [r.missing] + grid
    if got.shape != (len(grid), 2):
        fail("grid", f"shape {got.shape}, expected {(len(grid), 2)}")
    sc = r.scale()
    for i, v in enumerate(grid):
        if not same(float(got[i, 0]), float(v)):
            fail("grid", f"row {i} is at {got[i, 0]!r}, expected {v!r}")
        want = r.pd(j, v)
        if not (same(float(got[i, 1]), want) or abs(got[i, 1] - want) <= 5e-6 * sc):
            fail("value", f"feature {feat!r} at {v}: {got[i, 1]}, the cover-weighted expectation is {want}")
    if isinstance(feat, str):
        ctx.label("by name")
        try:
            m.partial_dependence(A, feat)
            fail("grid", "a name selects a column of an array")
        except ValueError:
            pass
    ctx.label(f"samples {samples}")
    return len({round(float(v), 9) for v in got[:, 1]}) > 1


if __name__ == "__main__":
    run("C14", "A case is a fitted Python estimator, a feature by name or index, a number of samples or None, bounds and missing handling; the returned grid must be exactly the sorted distinct values or the requested quantiles, preceded by the missing value if requested, and each value the cover-weighted expectation computed from the JSON dump. Non-trivial: the curve is not constant.",
        cases(), check, quick=8000, thorough=40000)
