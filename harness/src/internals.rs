//! The library's internal (but public) functions. With the feature `internals` off (used when the
//! harness does not compile against them, e.g. after a signature changed) the same quantities are
//! obtained through training, as far as training shows them.
use crate::*;

pub struct Bins {
    pub cuts: Vec<Vec<f64>>,
    pub nunique: Vec<usize>,
    pub bins: Vec<u16>,
}

#[cfg(feature = "internals")]
mod imp {
    use super::*;
    use forust_ml::binning::bin_matrix;
    use forust_ml::metric::{metric_callables, Metric};
    use forust_ml::objective::{calc_init_callables, gradient_hessian_callables, LogLoss, ObjectiveFunction, SquaredLoss};
    pub const PRESENT: bool = true;
    pub fn bins(p: &Params, d: &Data) -> Option<Result<Bins, String>> {
        Some(match bin_matrix(&d.matrix(), &d.w, p.nbins, p.missing) {
            Err(e) => Err(format!("bin_matrix failed: {}", e)),
            Ok(b) => Ok(Bins {
                cuts: (0..d.cols).map(|j| b.cuts.get_col(j).to_vec()).collect(),
                nunique: b.nunique.clone(),
                bins: b.binned_data.clone(),
            }),
        })
    }
    pub fn metric(mi: usize, y: &[f64], f: &[f64], w: &[f64]) -> f64 {
        metric_callables(match mi {
            0 => &Metric::AUC,
            1 => &Metric::LogLoss,
            2 => &Metric::RootMeanSquaredLogError,
            _ => &Metric::RootMeanSquaredError,
        })
        .0(y, f, w)
    }
    pub fn gradients(p: &Params, y: &[f64], f: &[f64], w: &[f64]) -> (Vec<f32>, Vec<f32>) {
        gradient_hessian_callables(&p.objective())(y, f, w)
    }
    pub fn loss(p: &Params, y: &[f64], f: &[f64], w: &[f64]) -> Option<Vec<f32>> {
        Some(if p.logloss { LogLoss::calc_loss(y, f, w) } else { SquaredLoss::calc_loss(y, f, w) })
    }
    pub fn init(p: &Params, y: &[f64], w: &[f64]) -> f64 {
        calc_init_callables(&p.objective())(y, w)
    }
}

#[cfg(not(feature = "internals"))]
mod imp {
    use super::*;
    pub const PRESENT: bool = false;
    pub fn bins(_: &Params, _: &Data) -> Option<Result<Bins, String>> {
        None
    }
    /// A stump-free model predicts the base score; one record per call.
    pub fn gradients(p: &Params, y: &[f64], f: &[f64], w: &[f64]) -> (Vec<f32>, Vec<f32>) {
        let (mut g, mut h) = (vec![], vec![]);
        for i in 0..y.len() {
            let mut c = Case::default();
            c.p.logloss = p.logloss;
            c.p.base_score = f[i];
            c.p.max_depth = 0;
            c.d = Data { rows: 1, cols: 1, x: vec![0.0], y: vec![y[i]], w: vec![w[i]] };
            let m = RModel::of(&c.fit()).expect("model");
            let n = &m.trees[0].nodes[0];
            h.push(n.h);
            g.push((-(n.w as f64) * (n.h as f64 + 1.0)) as f32);
        }
        (g, h)
    }
    pub fn metric(_: usize, _: &[f64], _: &[f64], _: &[f64]) -> f64 {
        unreachable!()
    }
    pub fn loss(_: &Params, _: &[f64], _: &[f64], _: &[f64]) -> Option<Vec<f32>> {
        None
    }
    pub fn init(p: &Params, y: &[f64], w: &[f64]) -> f64 {
        let mut c = Case::default();
        c.p.logloss = p.logloss;
        c.p.init_base = true;
        c.p.iterations = 0;
        c.d = Data { rows: y.len(), cols: 1, x: vec![0.0; y.len()], y: y.to_vec(), w: w.to_vec() };
        c.fit().base_score
    }
}
pub use imp::*;

/// The metric as the evaluation history of a one-tree model reports it, with the predictions it was
/// computed from. The tree is trained so that the predictions come close to `f`.
pub fn metric_by_history(mi: usize, y: &[f64], f: &[f64], w: &[f64]) -> (f64, Vec<f64>) {
    let mut c = Case::default();
    let n = y.len();
    c.p.l2 = 0.0;
    c.p.max_depth = 20;
    c.p.min_leaf_weight = 0.5;
    c.p.nbins = 1000;
    c.p.metric = Some(mi as u8);
    let mut u: Vec<f64> = f.iter().map(|v| v.clamp(-1e30, 1e30)).collect();
    let x: Vec<f64> = {
        let mut s = u.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        s.dedup();
        u.iter().map(|v| s.partition_point(|q| q < v) as f64).collect()
    };
    u.iter_mut().for_each(|v| *v = *v as f32 as f64);
    c.d = Data { rows: n, cols: 1, x: x.clone(), y: u, w: vec![1.0; n] };
    c.evals = vec![Data { rows: n, cols: 1, x: x.clone(), y: y.to_vec(), w: w.to_vec() }];
    let b = c.fit();
    let m = RModel::of(&b).expect("model");
    let h = b.evaluation_history.as_ref().expect("history");
    let f: Vec<f64> = x.iter().map(|v| m.predict_row_n(&[*v], 1)).collect();
    (*h.get(0, 0), f)
}

/// The candidate cut points of column j by definition; None when rounding leaves them open.
pub fn ref_cuts(p: &Params, d: &Data, j: usize) -> Option<Vec<f64>> {
    let nb = p.nbins as usize;
    let mut pairs: Vec<(f64, f64)> = (0..d.rows).filter(|i| !is_missing(d.get(*i, j), p.missing)).map(|i| (d.get(i, j), d.w[i])).collect();
    pairs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut uniq: Vec<f64> = pairs.iter().map(|e| e.0).collect();
    uniq.dedup();
    if uniq.contains(&f64::MAX) || uniq.contains(&f64::INFINITY) || uniq.len() == nb + 1 {
        return None;
    }
    let mut out = if uniq.len() <= nb {
        uniq
    } else {
        let total: f64 = pairs.iter().map(|e| e.1).sum();
        if !(total > 0.0) {
            return None;
        }
        let mut cum = vec![];
        let mut s = 0.0;
        for e in &pairs {
            s += e.1;
            cum.push(s / total);
        }
        let eps = 1e-12 * (pairs.len() as f64 + 10.0);
        let at = |lv: f64| -> f64 {
            let k = cum.iter().position(|x| *x >= lv).unwrap_or(pairs.len() - 1);
            pairs[k].0
        };
        let mut o = vec![pairs[0].0];
        for k in 1..nb {
            let lv = k as f64 / nb as f64;
            let (a, b) = (at(lv - eps), at(lv + eps));
            if a != b {
                return None;
            }
            o.push(a);
        }
        o.dedup();
        o
    };
    out.push(f64::MAX);
    Some(out)
}
