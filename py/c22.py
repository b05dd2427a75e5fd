"""C22: results do not depend on how the same data is laid out; the Python model is the core model."""
import copy
import numpy as np, pandas as pd
from hypothesis import strategies as st
from common import run, fail
from gen import *

XKINDS = ["c", "f", "rows2", "revrows", "revcols", "revboth", "wide", "transposed", "readonly", "offset", "frame", "frame_index", "frame_slice", "frame_rev",
          "frame_mixed", "frame_f", "int64", "int8", "bool", "float32", "float16", "object", "frame_int", "frame_object", "frame_cols_int", "bigendian",
          "np:u1", "np:u2", "np:u4", "np:u8", "np:i2", "np:i4", "np:g"]
AKINDS = ["plain", "series", "series_index", "strided", "reversed", "column", "int64", "uint8", "bool", "float32", "readonly", "series_view", "series_int", "bigendian", "series_bool",
          "np:i1", "np:i2", "np:i4", "np:u2", "np:u4", "np:u8", "np:f2", "np:g"]


def exact(a, dt):
    if np.isnan(a).any() or np.isinf(a).any():
        return np.issubdtype(np.dtype(dt), np.floating) and bool(np.array_equal(a.astype(dt).astype("f8"), a, equal_nan=True))
    with np.errstate(all="ignore"):
        b = a.astype(dt)
        return bool(np.array_equal(b.astype("f8"), a)) and not (np.signbit(a) & (a == 0)).any()


def layx(a, kind, names, k):
    """The same numbers as matrix a in another layout."""
    n, m = a.shape
    if kind == "f":
        return np.asfortranarray(a)
    if kind == "rows2":
        b = np.full((2 * n + 1, m), 77.0)
        b[1::2][:n] = a
        return b[1::2][:n]
    if kind == "revrows":
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == "revcols":
        return np.asfortranarray(a[:, ::-1])[:, ::-1]
    if kind == "revboth":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if kind == "wide":
        b = np.full((n, m + 3), -5.5)
        b[:, 2 : 2 + m] = a
        return b[:, 2 : 2 + m]
    if kind == "transposed":
        return np.ascontiguousarray(a.T).T
    if kind == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == "offset":
        b = np.full((n + 4, m), 9.0)
        b[3 : 3 + n] = a
        return b[3 : 3 + n]
    if kind == "int64" and exact(a, "i8"):
        return a.astype("i8")
    if kind == "int8" and exact(a, "i1"):
        return np.asfortranarray(a.astype("i1"))
    if kind == "bool" and exact(a, "?"):
        return a.astype("?")
    if kind == "float32" and exact(a, "f4"):
        return a.astype("f4")
    if kind == "float16" and exact(a, "f2"):
        return np.asfortranarray(a.astype("f2"))[:, :]
    if kind.startswith("np:") and exact(a, kind[3:]):
        return a.astype(kind[3:]) if k % 2 else np.asfortranarray(a.astype(kind[3:]))
    if kind == "object":
        return a.astype(object)
    if kind == "bigendian":
        return a.astype(">f4") if k % 2 and exact(a, "f4") else a.astype(">f8")
    if kind == "frame":
        return pd.DataFrame(a.copy(), columns=names)
    if kind == "frame_index":
        return pd.DataFrame(a.copy(), columns=names, index=[(7 * i) % 5 for i in range(n)])
    if kind == "frame_slice":
        b = np.full((n + 2, m + 1), 3.5)
        b[1 : 1 + n, :m] = a
        return pd.DataFrame(b, columns=list(names) + ["zz extra"]).iloc[1 : 1 + n, :m]
    if kind == "frame_rev":
        return pd.DataFrame(np.ascontiguousarray(a[::-1]), columns=names).iloc[::-1]
    if kind == "frame_f":
        return pd.DataFrame(np.asfortranarray(a), columns=names)
    if kind == "frame_mixed":
        d = pd.DataFrame(a.copy(), columns=names)
        out = {}
        for i, c in enumerate(names):
            col = a[:, i]
            for dt in (["?", "i4", "f4"], ["i8", "f4"], ["f4"], ["u1", "f8"])[(i + k) % 4]:
                if exact(col, dt):
                    out[c] = col.astype(dt)
                    break
            else:
                out[c] = col
        return pd.DataFrame(out, columns=names)
    if kind == "frame_int":
        return pd.DataFrame(a.astype("i4") if exact(a, "i4") else a.copy(), columns=names)
    if kind == "frame_object":
        return pd.DataFrame(a.astype(object), columns=names)
    if kind == "frame_cols_int":
        return pd.DataFrame(a.copy())
    return a.copy()


def laya(v, kind):
    n = len(v)
    if kind == "series":
        return pd.Series(v.copy())
    if kind == "series_index":
        return pd.Series(v.copy(), index=[(3 * i + 1) % 4 for i in range(n)])
    if kind == "strided":
        b = np.full(3 * n + 1, 8.25)
        b[1 : 1 + 3 * n : 3] = v
        return b[1 : 1 + 3 * n : 3]
    if kind == "reversed":
        return np.ascontiguousarray(v[::-1])[::-1]
    if kind == "column":
        b = np.full((n, 3), 4.0)
        b[:, 1] = v
        return b[:, 1]
    if kind.startswith("np:") and exact(v, kind[3:]):
        return v.astype(kind[3:])
    if kind in ("int64", "series_int") and exact(v, "i8" if kind == "int64" else "i4"):
        return v.astype("i8") if kind == "int64" else pd.Series(v.astype("i4"))
    if kind == "uint8" and exact(v, "u1"):
        return v.astype("u1")
    if kind in ("bool", "series_bool") and exact(v, "?"):
        return v.astype("?") if kind == "bool" else pd.Series(v.astype("?"))
    if kind == "float32" and exact(v, "f4"):
        return v.astype("f4")
    if kind == "bigendian":
        return v.astype(">f8")
    if kind == "readonly":
        b = v.copy()
        b.flags.writeable = False
        return b
    if kind == "series_view":
        return pd.DataFrame({"a": v, "b": 1.0})["a"].iloc[::1]
    return v.copy()


def snap(o):
    if o is None:
        return None
    if isinstance(o, pd.DataFrame):
        return ("df", list(o.columns), list(o.index), [str(t) for t in o.dtypes], [o.iloc[:, i].to_numpy().copy() for i in range(o.shape[1])])
    if isinstance(o, pd.Series):
        return ("s", list(o.index), str(o.dtype), o.to_numpy().copy())
    return ("a", o.shape, str(o.dtype), o.flags.writeable, o.copy())


def unchanged(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.tobytes() == b.tobytes() if a.dtype != object else same(a.tolist(), b.tolist())
    return a == b


@st.composite
def cases(draw):
    c = draw(st_case())
    c["names"] = draw(st_names(c["cols"]))
    if draw(st.integers(0, 2)) == 0:
        # whole labels and weights that fill the integer types
        top = draw(st.sampled_from([127, 255, 32767, 65535, 2**31 - 1, 2**32 - 1]))
        pool = [0.0, 1.0, 2.0, float(top), float(top // 2), float(top // 3), float(top // 2 + 2)]
        for e in [c["data"]] + c["evals"]:
            if c["params"].get("objective_type", "LogLoss") != "LogLoss":
                e["y"] = [pool[int(abs(v) * 8) % 7] for v in e["y"]]
            if e["w"] is not None and top <= 255:
                e["w"] = [pool[1:][int(abs(v) * 10) % 6] for v in e["w"]]
    c["ptile"] = 1 + draw(st.sampled_from([300, 1100, 5000, 11000, 70000])) // len(c["probe"]) if draw(st.integers(0, 49)) == 49 else 1
    c["layouts"] = [
        {"x": draw(st.sampled_from(XKINDS)), "y": draw(st.sampled_from(AKINDS)), "w": draw(st.sampled_from(AKINDS)), "ex": draw(st.sampled_from(XKINDS)),
         "ey": draw(st.sampled_from(AKINDS)), "ew": draw(st.sampled_from(AKINDS)), "px": draw(st.sampled_from(XKINDS)), "k": draw(st.integers(0, 3)),
         "method": draw(st.sampled_from(CONTRIB)), "ones": draw(st.booleans()), "swap": draw(st.integers(0, 5))}
        for _ in range(draw(st.integers(1, 3)))
    ]
    return c


def check(c, ctx):
    ref = fit(c)
    P = xmat(c, {"x": c["probe"], "tile": c.get("ptile", 1)})
    few = len(c["probe"])
    want = ref.predict(P)
    core = Core.fit(c)
    if "doc" not in core:
        fail("core", f"Python fits what the core library rejects: {core}")
    r = diff(json.loads(core["doc"]) | {"metadata": 0, "terminate_missing_features": 0}, doc(ref) | {"metadata": 0, "terminate_missing_features": 0})
    if r:
        fail("core", f"the Python model differs from the one trained by the core library at {r}")
    need_eq("core", want[:few], fl(core["pred"]), "Python and core predictions")
    need_eq("core", ref.predict_leaf_indices(P[:few]).T.ravel(), np.array(core["leaf"], dtype="u8"), "Python and core leaf indices")
    need_eq("core", ref.predict_contributions(P[:few]).ravel(), fl(core["average"]), "Python and core contributions")
    # each record at its own row: predicting one by one
    need_eq("row", want, tiled({"tile": c.get("ptile", 1)}, want[:few]), "repeated records")
    for i in range(few):
        need_eq("row", ref.predict(P[i : i + 1]), want[i : i + 1], f"record {i} alone")
    d = c["data"]
    for L in c["layouts"]:
        frameish = L["x"].startswith("frame")
        names = (list(range(c["cols"])) if L["x"] == "frame_cols_int" else c["names"]) if frameish else None
        m = build(c, names)
        X = layx(xmat(c), L["x"], c["names"], L["k"])
        y = laya(yv(d), L["y"])
        w = None if d["w"] is None and not L["ones"] else laya(tiled(d, arr(d["w"] or [1.0] * len(d["y"]))), L["w"])
        efit = lambda k: k if (not k.startswith("frame")) or (frameish and (k == "frame_cols_int") == (L["x"] == "frame_cols_int")) or not frameish else "f"
        ev = [(layx(xmat(c, e), efit(L["ex"]), c["names"], L["k"]), laya(yv(e), L["ey"])) + (() if e["w"] is None else (laya(wts(e), L["ew"]),)) for e in c["evals"]] or None
        every = [X, y, w] + [o for t in ev or [] for o in t]
        before = [snap(o) for o in every]
        m.fit(X, y, sample_weight=w, evaluation_data=ev)
        what = f"fitted on layout {L['x']}/{L['y']}/{L['w']} (evaluation {L['ex']}/{L['ey']}/{L['ew']})"
        if not unchanged(before, [snap(o) for o in every]):
            fail("modified", f"{what}: fit modified its inputs")
        need_same_doc("layout", ref, m, what)
        need_eq("layout", m.predict(P), want, f"{what}: predictions")
        PX = layx(P, efit(L["px"]) if frameish else L["px"], c["names"], L["k"])
        b4 = snap(PX)
        for par in (None, True, False):
            need_eq("layout", m.predict(PX, parallel=par), want, f"{what}, predicting layout {L['px']}")
        need_eq("layout", m.predict_leaf_indices(PX), ref.predict_leaf_indices(P), f"leaf indices of layout {L['px']}")
        meth = L["method"] if L["method"] != "ProbabilityChange" or c["params"].get("objective_type", "LogLoss") == "LogLoss" else "Weight"
        got = m.predict_contributions(PX, method=meth)
        if got.shape != (len(P), c["cols"] + 1):
            fail("shape", f"contributions have shape {got.shape}")
        need_eq("layout", got, ref.predict_contributions(P, method=meth), f"{meth} contributions of layout {L['px']}")
        if not unchanged(b4, snap(PX)):
            fail("modified", "predicting modified its input")
        # a frame with other columns, or the same in another order, is refused and not scored
        if frameish and L["x"] != "frame_cols_int":
            good = pd.DataFrame(P, columns=c["names"])
            perm = [(j + 1 + L["swap"]) % c["cols"] for j in range(c["cols"])]
            bads = [good.rename(columns={c["names"][L["swap"] % c["cols"]]: "renamed"}), good.assign(**{"one more": 1.0}), good.set_axis([f"n{j}" for j in perm], axis=1)]
            if perm != list(range(c["cols"])):
                bads += [good.iloc[:, perm], good.set_axis([c["names"][j] for j in perm], axis=1), good.iloc[:, perm[1:]]]
            for bad in [bads[0], bads[-1], bads[L["swap"] % len(bads)]]:
                for f in (m.predict, m.predict_contributions, m.predict_leaf_indices):
                    try:
                        f(bad)
                    except ValueError:
                        continue
                    fail("columns", f"{f.__name__} scores a frame with columns {list(bad.columns)}, the model was fitted on {c['names']}")
        ctx.label(f"X {L['x']}")
        ctx.label(f"y {L['y']}")
    return has_split(ref)


if __name__ == "__main__":
    run("C22", "A case is a data set with missing values, full parameters, optional weights and evaluation sets, and 1-3 layouts (of 26 matrix and 15 vector kinds: orders, strided, reversed and offset views, integer, boolean, half, single, object dtypes, frames of several kinds) for training, evaluation and scoring inputs. Each layout must give the model document, predictions, leaf indices and contributions of contiguous float arrays, bit for bit, leave its inputs unmodified, and the reference must equal the model trained by the core library through no Python at all. Non-trivial: the model has a split.",
        cases(), check, quick=9000, thorough=60000,
        assumptions=["layouts whose dtype cannot represent the case's numbers exactly fall back to a plain copy"])
