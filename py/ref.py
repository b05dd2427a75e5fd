"""Reference computations on the dumped trees."""
import json, math
import numpy as np


def num(v):
    if v is None:
        return float("nan")
    return float(v)


class RModel:
    def __init__(self, m):
        d = json.loads(m.json_dump())
        self.doc = d
        self.base = num(d["base_score"])
        self.missing = num(d["missing"])
        self.pi = d["prediction_iteration"]
        self.trees = [t["nodes"] for t in d["trees"]]
        self.trees = [[n for _, n in sorted((int(k), v) for k, v in t.items())] if isinstance(t, dict) else t for t in self.trees]
        for t in self.trees:
            for n in t:
                for k in ("weight_value", "hessian_sum", "split_value", "split_gain"):
                    n[k] = num(n[k])
                # single precision values are written with as many digits as identify them
                n["w"], n["h"], n["g"] = (float(np.float32(n[k])) for k in ("weight_value", "hessian_sum", "split_gain"))
        self.used = self.trees if self.pi is None else self.trees[: self.pi]

    def is_missing(self, v):
        return (v != v) if self.missing != self.missing else v == self.missing

    def child(self, n, v):
        return n["missing_node"] if self.is_missing(v) else n["left_child"] if v < n["split_value"] else n["right_child"]

    def path(self, t, row):
        i, p = 0, [0]
        while not t[i]["is_leaf"]:
            i = self.child(t[i], row[t[i]["split_feature"]])
            p.append(i)
        return p

    def predict(self, row, k=None):
        s = self.base
        for t in self.used if k is None else self.trees[:k]:
            s += t[self.path(t, row)[-1]]["w"]
        return s

    def leaves(self, row):
        return [self.path(t, row)[-1] for t in self.used]

    def weight_contributions(self, row, cols):
        out = [0.0] * (cols + 1)
        out[-1] = self.base
        for t in self.used:
            p = self.path(t, row)
            out[-1] += t[0]["w"]
            for a, b in zip(p, p[1:]):
                out[t[a]["split_feature"]] += t[b]["w"] - t[a]["w"]
        return out

    def pd(self, f, v):
        def rec(t, i):
            n = t[i]
            if n["is_leaf"]:
                return n["w"]
            if n["split_feature"] == f:
                return rec(t, self.child(n, v))
            ch = {n["left_child"], n["right_child"], n["missing_node"]}
            tot = sum(t[j]["h"] for j in ch)
            return sum(t[j]["h"] / tot * rec(t, j) for j in sorted(ch))

        return self.base + sum(rec(t, 0) for t in self.used)

    def scale(self):
        return abs(self.base) + sum(max(abs(n["w"]) for n in t) for t in self.trees) + 1e-12

    def importance(self, method):
        cnt, tot = {}, {}
        for t in self.trees:
            for n in t:
                if not n["is_leaf"]:
                    f = n["split_feature"]
                    cnt[f] = cnt.get(f, 0) + 1
                    v = 1.0 if method == "Weight" else n["g"] if "Gain" in method else n["h"]
                    tot[f] = tot.get(f, 0.0) + v
        return {f: tot[f] if method in ("Weight", "TotalGain", "TotalCover") else tot[f] / cnt[f] for f in tot}
