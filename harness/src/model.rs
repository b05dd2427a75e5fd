//! Independent view of a model, read from its JSON dump, with reference computations.
use crate::case::vf;
use forust_ml::GradientBooster;
use serde_json::Value;

#[derive(Clone, Debug)]
pub struct RNode {
    pub num: usize,
    pub w: f32,
    pub h: f32,
    pub depth: usize,
    pub sv: f64,
    pub sf: usize,
    pub gain: f32,
    pub miss: usize,
    pub left: usize,
    pub right: usize,
    pub leaf: bool,
}
impl RNode {
    pub fn ternary(&self) -> bool {
        self.miss != self.left && self.miss != self.right
    }
    pub fn children(&self) -> Vec<usize> {
        if self.leaf {
            vec![]
        } else if self.ternary() {
            vec![self.left, self.right, self.miss]
        } else {
            vec![self.left, self.right]
        }
    }
}
#[derive(Clone, Debug)]
pub struct RTree {
    pub nodes: Vec<RNode>,
}
#[derive(Clone, Debug)]
pub struct RModel {
    pub base: f64,
    pub missing: f64,
    pub trees: Vec<RTree>,
    pub pred_iter: Option<usize>,
    pub best_iter: Option<usize>,
    pub doc: Value,
}
pub fn is_missing(v: f64, m: f64) -> bool {
    if m.is_nan() {
        v.is_nan()
    } else {
        v == m
    }
}
pub fn num_or(v: &Value) -> f64 {
    vf(v)
}
impl RTree {
    pub fn child(&self, n: usize, v: f64, missing: f64) -> usize {
        let nd = &self.nodes[n];
        if is_missing(v, missing) {
            nd.miss
        } else if v < nd.sv {
            nd.left
        } else {
            nd.right
        }
    }
    pub fn leaf(&self, row: &[f64], missing: f64) -> usize {
        *self.path(row, missing).last().unwrap()
    }
    pub fn path(&self, row: &[f64], missing: f64) -> Vec<usize> {
        let mut p = vec![0];
        let mut n = 0;
        while !self.nodes[n].leaf {
            n = self.child(n, row[self.nodes[n].sf], missing);
            p.push(n);
            assert!(p.len() <= self.nodes.len() + 1, "routing does not terminate (cycle in tree)");
        }
        p
    }
    pub fn from_value(v: &Value) -> Result<RTree, String> {
        let nodes = v["nodes"].as_array().ok_or("tree without nodes")?;
        let g = |n: &Value, k: &str| -> Result<usize, String> {
            n[k].as_u64().map(|x| x as usize).ok_or(format!("node field {} not an index: {}", k, n[k]))
        };
        let mut out = vec![];
        for n in nodes {
            out.push(RNode {
                num: g(n, "num")?,
                w: vf(&n["weight_value"]) as f32,
                h: vf(&n["hessian_sum"]) as f32,
                depth: g(n, "depth")?,
                sv: vf(&n["split_value"]),
                sf: g(n, "split_feature")?,
                gain: vf(&n["split_gain"]) as f32,
                miss: g(n, "missing_node")?,
                left: g(n, "left_child")?,
                right: g(n, "right_child")?,
                leaf: n["is_leaf"].as_bool().ok_or("is_leaf")?,
            });
        }
        Ok(RTree { nodes: out })
    }
}
impl RModel {
    pub fn of(b: &GradientBooster) -> Result<RModel, String> {
        let s = b.json_dump().map_err(|e| format!("json_dump failed: {}", e))?;
        RModel::from_str(&s)
    }
    pub fn from_str(s: &str) -> Result<RModel, String> {
        let doc: Value = serde_json::from_str(s).map_err(|e| format!("dump is not JSON: {}", e))?;
        let mut trees = vec![];
        for t in doc["trees"].as_array().ok_or("no trees in dump")? {
            trees.push(RTree::from_value(t)?);
        }
        Ok(RModel {
            base: vf(&doc["base_score"]),
            missing: vf(&doc["missing"]),
            pred_iter: doc["prediction_iteration"].as_u64().map(|x| x as usize),
            best_iter: doc["best_iteration"].as_u64().map(|x| x as usize),
            trees,
            doc,
        })
    }
    pub fn used(&self) -> &[RTree] {
        let n = self.pred_iter.unwrap_or(self.trees.len()).min(self.trees.len());
        &self.trees[..n]
    }
    /// Covers weigh branches only where each split has some and its children share it out.
    pub fn covers_usable(&self) -> bool {
        self.used().iter().all(|t| {
            t.nodes.iter().filter(|n| !n.leaf).all(|n| {
                let s: f64 = n.children().iter().map(|k| t.nodes[*k].h as f64).sum();
                n.h > 0.0 && t.nodes[n.left].h as f64 + t.nodes[n.right].h as f64 > 0.0 && (s - n.h as f64).abs() <= 1e-6 * n.h as f64
            })
        })
    }
    pub fn predict_row_n(&self, row: &[f64], n: usize) -> f64 {
        let mut s = self.base;
        for t in &self.trees[..n] {
            s += t.nodes[t.leaf(row, self.missing)].w as f64;
        }
        s
    }
    pub fn predict_row(&self, row: &[f64]) -> f64 {
        self.predict_row_n(row, self.used().len())
    }
}
