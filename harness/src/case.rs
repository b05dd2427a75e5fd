//! A generated case: parameters + training data + evaluation sets + probe records + extras.
use forust_ml::constraints::{Constraint, ConstraintMap};
use forust_ml::gradientbooster::{GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::{GradientBooster, Matrix};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};

pub fn fv(x: f64) -> Value {
    if x.is_finite() {
        json!(x)
    } else {
        json!(format!("{}", x))
    }
}
pub fn vf(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap(),
        Value::Null => f64::NAN,
        Value::String(s) => s.parse::<f64>().unwrap_or(f64::NAN),
        _ => panic!("not a number: {}", v),
    }
}
pub fn fvec(x: &[f64]) -> Value {
    Value::Array(x.iter().map(|v| fv(*v)).collect())
}
pub fn vvec(v: &Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(vf).collect()).unwrap_or_default()
}

#[derive(Clone, Debug, Default)]
pub struct Data {
    pub rows: usize,
    pub cols: usize,
    pub x: Vec<f64>, // column major
    pub y: Vec<f64>,
    pub w: Vec<f64>,
}
impl Data {
    pub fn matrix(&self) -> Matrix<'_, f64> {
        Matrix::new(&self.x, self.rows, self.cols)
    }
    pub fn get(&self, i: usize, j: usize) -> f64 {
        self.x[j * self.rows + i]
    }
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.x[j * self.rows + i] = v;
    }
    pub fn row(&self, i: usize) -> Vec<f64> {
        (0..self.cols).map(|j| self.get(i, j)).collect()
    }
    pub fn col(&self, j: usize) -> &[f64] {
        &self.x[j * self.rows..(j + 1) * self.rows]
    }
    pub fn from_rows(rows: &[Vec<f64>], cols: usize) -> Data {
        let n = rows.len();
        let mut x = vec![0.0; n * cols];
        for (i, r) in rows.iter().enumerate() {
            for j in 0..cols {
                x[j * n + i] = r[j];
            }
        }
        Data { rows: n, cols, x, y: vec![0.0; n], w: vec![1.0; n] }
    }
    pub fn select_rows(&self, keep: &[usize]) -> Data {
        let n = keep.len();
        let mut x = Vec::with_capacity(n * self.cols);
        for j in 0..self.cols {
            for &i in keep {
                x.push(self.get(i, j));
            }
        }
        Data {
            rows: n,
            cols: self.cols,
            x,
            y: keep.iter().map(|&i| self.y[i]).collect(),
            w: keep.iter().map(|&i| self.w[i]).collect(),
        }
    }
    pub fn drop_col(&self, c: usize) -> Data {
        let mut x = Vec::new();
        for j in 0..self.cols {
            if j != c {
                x.extend_from_slice(self.col(j));
            }
        }
        Data { rows: self.rows, cols: self.cols - 1, x, y: self.y.clone(), w: self.w.clone() }
    }
    pub fn to_json(&self) -> Value {
        json!({"rows": self.rows, "cols": self.cols, "x_colmajor": fvec(&self.x), "y": fvec(&self.y), "w": fvec(&self.w)})
    }
    pub fn from_json(v: &Value) -> Data {
        Data {
            rows: v["rows"].as_u64().unwrap() as usize,
            cols: v["cols"].as_u64().unwrap() as usize,
            x: vvec(&v["x_colmajor"]),
            y: vvec(&v["y"]),
            w: vvec(&v["w"]),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    pub logloss: bool,
    pub iterations: usize,
    pub learning_rate: f32,
    pub max_depth: usize,
    pub max_leaves: usize,
    pub l1: f32,
    pub l2: f32,
    pub gamma: f32,
    pub max_delta_step: f32,
    pub min_leaf_weight: f32,
    pub base_score: f64,
    pub nbins: u16,
    pub parallel: bool,
    pub allow_missing_splits: bool,
    pub mono: Option<Vec<(usize, i8)>>,
    pub subsample: f32,
    pub top_rate: f64,
    pub other_rate: f64,
    pub colsample: f64,
    pub seed: u64,
    pub missing: f64,
    pub missing_branch: bool,
    pub sample: u8,      // 0 none 1 random 2 goss
    pub lossguide: bool,
    pub metric: Option<u8>, // 0 auc 1 logloss 2 rmsle 3 rmse
    pub esr: Option<usize>,
    pub init_base: bool,
    pub terminate: Vec<usize>,
    pub treatment: u8, // 0 none 1 assign 2 avgleaf 3 avgnode
    pub log_iterations: usize,
    pub force_bound: bool,
}
impl Default for Params {
    fn default() -> Self {
        Params {
            logloss: false,
            iterations: 1,
            learning_rate: 1.0,
            max_depth: 3,
            max_leaves: usize::MAX,
            l1: 0.0,
            l2: 1.0,
            gamma: 0.0,
            max_delta_step: 0.0,
            min_leaf_weight: 1.0,
            base_score: 0.0,
            nbins: 256,
            parallel: false,
            allow_missing_splits: true,
            mono: None,
            subsample: 1.0,
            top_rate: 0.1,
            other_rate: 0.2,
            colsample: 1.0,
            seed: 0,
            missing: f64::NAN,
            missing_branch: false,
            sample: 0,
            lossguide: false,
            metric: None,
            esr: None,
            init_base: false,
            terminate: vec![],
            treatment: 1,
            log_iterations: 0,
            force_bound: false,
        }
    }
}
pub const METRICS: [&str; 4] = ["AUC", "LogLoss", "RootMeanSquaredLogError", "RootMeanSquaredError"];
pub const TREATMENTS: [&str; 4] = ["None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"];
impl Params {
    pub fn objective(&self) -> ObjectiveType {
        if self.logloss {
            ObjectiveType::LogLoss
        } else {
            ObjectiveType::SquaredLoss
        }
    }
    pub fn metric_enum(&self) -> Option<Metric> {
        self.metric.map(|m| match m {
            0 => Metric::AUC,
            1 => Metric::LogLoss,
            2 => Metric::RootMeanSquaredLogError,
            _ => Metric::RootMeanSquaredError,
        })
    }
    pub fn constraint_map(&self) -> Option<ConstraintMap> {
        self.mono.as_ref().map(|m| {
            m.iter()
                .map(|(k, c)| {
                    (
                        *k,
                        match c {
                            1 => Constraint::Positive,
                            -1 => Constraint::Negative,
                            _ => Constraint::Unconstrained,
                        },
                    )
                })
                .collect()
        })
    }
    pub fn treatment_enum(&self) -> MissingNodeTreatment {
        match self.treatment {
            0 => MissingNodeTreatment::None,
            1 => MissingNodeTreatment::AssignToParent,
            2 => MissingNodeTreatment::AverageLeafWeight,
            _ => MissingNodeTreatment::AverageNodeWeight,
        }
    }
    pub fn sample_enum(&self) -> SampleMethod {
        match self.sample {
            0 => SampleMethod::None,
            1 => SampleMethod::Random,
            _ => SampleMethod::Goss,
        }
    }
    pub fn grow_enum(&self) -> GrowPolicy {
        if self.lossguide {
            GrowPolicy::LossGuide
        } else {
            GrowPolicy::DepthWise
        }
    }
    pub fn try_build(&self) -> Result<GradientBooster, String> {
        GradientBooster::new(
            self.objective(),
            self.iterations,
            self.learning_rate,
            self.max_depth,
            self.max_leaves,
            self.l1,
            self.l2,
            self.gamma,
            self.max_delta_step,
            self.min_leaf_weight,
            self.base_score,
            self.nbins,
            self.parallel,
            self.allow_missing_splits,
            self.constraint_map(),
            self.subsample,
            self.top_rate,
            self.other_rate,
            self.colsample,
            self.seed,
            self.missing,
            self.missing_branch,
            self.sample_enum(),
            self.grow_enum(),
            self.metric_enum(),
            self.esr,
            self.init_base,
            self.terminate.iter().copied().collect::<HashSet<usize>>(),
            self.treatment_enum(),
            self.log_iterations,
            self.force_bound,
        )
        .map_err(|e| e.to_string())
    }
    pub fn build(&self) -> GradientBooster {
        self.try_build().expect("valid parameters rejected")
    }
    pub fn to_json(&self) -> Value {
        json!({
            "logloss": self.logloss, "iterations": self.iterations, "learning_rate": fv(self.learning_rate as f64),
            "max_depth": self.max_depth, "max_leaves": self.max_leaves, "l1": fv(self.l1 as f64), "l2": fv(self.l2 as f64),
            "gamma": fv(self.gamma as f64), "max_delta_step": fv(self.max_delta_step as f64), "min_leaf_weight": fv(self.min_leaf_weight as f64),
            "base_score": fv(self.base_score), "nbins": self.nbins, "parallel": self.parallel,
            "allow_missing_splits": self.allow_missing_splits,
            "mono": self.mono.as_ref().map(|m| m.iter().map(|(a,b)| json!([a,b])).collect::<Vec<_>>()),
            "subsample": fv(self.subsample as f64), "top_rate": fv(self.top_rate), "other_rate": fv(self.other_rate),
            "colsample": fv(self.colsample), "seed": self.seed, "missing": fv(self.missing), "missing_branch": self.missing_branch,
            "sample": self.sample, "lossguide": self.lossguide, "metric": self.metric, "esr": self.esr, "init_base": self.init_base,
            "terminate": self.terminate, "treatment": self.treatment, "log_iterations": self.log_iterations, "force_bound": self.force_bound,
        })
    }
    pub fn from_json(v: &Value) -> Params {
        let u = |k: &str| v[k].as_u64().unwrap() as usize;
        let b = |k: &str| v[k].as_bool().unwrap();
        let f = |k: &str| vf(&v[k]);
        Params {
            logloss: b("logloss"),
            iterations: u("iterations"),
            learning_rate: f("learning_rate") as f32,
            max_depth: u("max_depth"),
            max_leaves: u("max_leaves"),
            l1: f("l1") as f32,
            l2: f("l2") as f32,
            gamma: f("gamma") as f32,
            max_delta_step: f("max_delta_step") as f32,
            min_leaf_weight: f("min_leaf_weight") as f32,
            base_score: f("base_score"),
            nbins: u("nbins") as u16,
            parallel: b("parallel"),
            allow_missing_splits: b("allow_missing_splits"),
            mono: v["mono"].as_array().map(|a| {
                a.iter()
                    .map(|e| (e[0].as_u64().unwrap() as usize, e[1].as_i64().unwrap() as i8))
                    .collect()
            }),
            subsample: f("subsample") as f32,
            top_rate: f("top_rate"),
            other_rate: f("other_rate"),
            colsample: f("colsample"),
            seed: v["seed"].as_u64().unwrap(),
            missing: f("missing"),
            missing_branch: b("missing_branch"),
            sample: u("sample") as u8,
            lossguide: b("lossguide"),
            metric: v["metric"].as_u64().map(|x| x as u8),
            esr: v["esr"].as_u64().map(|x| x as usize),
            init_base: b("init_base"),
            terminate: v["terminate"].as_array().unwrap().iter().map(|e| e.as_u64().unwrap() as usize).collect(),
            treatment: u("treatment") as u8,
            log_iterations: u("log_iterations"),
            force_bound: b("force_bound"),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub kind: String,
    pub p: Params,
    pub d: Data,
    pub evals: Vec<Data>,
    pub probes: Vec<Vec<f64>>,
    pub nums: BTreeMap<String, Vec<f64>>,
    pub strs: BTreeMap<String, String>,
    /// free-form structured payload (synthetic trees, operation sequences)
    pub extra: Value,
}
impl Case {
    pub fn num(&self, k: &str) -> f64 {
        self.nums.get(k).map(|v| v[0]).unwrap_or(0.0)
    }
    pub fn setn(&mut self, k: &str, v: f64) {
        self.nums.insert(k.into(), vec![v]);
    }
    pub fn to_json(&self) -> Value {
        let mut nums = Map::new();
        for (k, v) in &self.nums {
            nums.insert(k.clone(), fvec(v));
        }
        json!({
            "kind": self.kind, "params": self.p.to_json(), "data": self.d.to_json(),
            "evals": self.evals.iter().map(|e| e.to_json()).collect::<Vec<_>>(),
            "probes": self.probes.iter().map(|e| fvec(e)).collect::<Vec<_>>(),
            "nums": nums, "strs": self.strs, "extra": self.extra,
        })
    }
    pub fn from_json(v: &Value) -> Case {
        Case {
            kind: v["kind"].as_str().unwrap().to_string(),
            p: Params::from_json(&v["params"]),
            d: Data::from_json(&v["data"]),
            evals: v["evals"].as_array().unwrap().iter().map(Data::from_json).collect(),
            probes: v["probes"].as_array().unwrap().iter().map(vvec).collect(),
            nums: v["nums"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), vvec(v))).collect(),
            strs: v["strs"]
                .as_object()
                .unwrap()
                .iter()
                .map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string()))
                .collect(),
            extra: v["extra"].clone(),
        }
    }
    /// Fit the booster of this case on its training data (with its evaluation sets).
    pub fn fit(&self) -> GradientBooster {
        let mut b = self.p.build();
        self.fit_into(&mut b).expect("fit returned an error on valid input");
        b
    }
    pub fn fit_into(&self, b: &mut GradientBooster) -> Result<(), String> {
        let m = self.d.matrix();
        let evals = if self.evals.is_empty() {
            None
        } else {
            Some(self.evals.iter().map(|e| (e.matrix(), e.y.as_slice(), e.w.as_slice())).collect())
        };
        b.fit(&m, &self.d.y, &self.d.w, evals).map_err(|e| e.to_string())
    }
    pub fn probe_data(&self) -> Data {
        Data::from_rows(&self.probes, self.d.cols)
    }
}
