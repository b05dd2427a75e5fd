//! Reference contribution methods over the independent model view.
use crate::model::*;
use forust_ml::gradientbooster::ContributionsMethod;

pub const METHODS: [&str; 7] = ["Weight", "Average", "BranchDifference", "MidpointDifference", "ModeDifference", "ProbabilityChange", "Shapley"];
pub fn method(i: usize) -> ContributionsMethod {
    match i {
        0 => ContributionsMethod::Weight,
        1 => ContributionsMethod::Average,
        2 => ContributionsMethod::BranchDifference,
        3 => ContributionsMethod::MidpointDifference,
        4 => ContributionsMethod::ModeDifference,
        5 => ContributionsMethod::ProbabilityChange,
        _ => ContributionsMethod::Shapley,
    }
}
pub fn sigmoid(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
/// cover-weighted average of the leaves below node n
pub fn avg(t: &RTree, n: usize) -> f64 {
    let nd = &t.nodes[n];
    if nd.leaf {
        return nd.w as f64;
    }
    let mut s = 0.0;
    let mut c = 0.0;
    for k in nd.children() {
        let h = t.nodes[k].h as f64;
        if h != 0.0 {
            s += h * avg(t, k);
            c += h;
        }
    }
    s / c
}
/// value of the coalition `known` (bit set over features) in the tree-path-dependent game
pub fn game(t: &RTree, n: usize, row: &[f64], missing: f64, known: &dyn Fn(usize) -> bool) -> f64 {
    let nd = &t.nodes[n];
    if nd.leaf {
        return nd.w as f64;
    }
    if known(nd.sf) {
        return game(t, t.child(n, row[nd.sf], missing), row, missing, known);
    }
    let tot: f64 = nd.children().iter().map(|k| t.nodes[*k].h as f64).sum();
    nd.children()
        .iter()
        .map(|k| {
            let h = t.nodes[*k].h as f64;
            if h == 0.0 {
                0.0
            } else {
                h / tot * game(t, *k, row, missing, known)
            }
        })
        .sum()
}
pub fn features(t: &RTree) -> Vec<usize> {
    let mut f: Vec<usize> = t.nodes.iter().filter(|n| !n.leaf).map(|n| n.sf).collect();
    f.sort();
    f.dedup();
    f
}
pub fn shapley(t: &RTree, row: &[f64], missing: f64, out: &mut [f64]) {
    let fs = features(t);
    let m = fs.len();
    let v: Vec<f64> = (0..(1usize << m))
        .map(|s| game(t, 0, row, missing, &|f| fs.iter().position(|x| *x == f).map(|i| s >> i & 1 == 1).unwrap_or(false)))
        .collect();
    let mut fact = vec![1.0f64; m + 2];
    for i in 1..m + 2 {
        fact[i] = fact[i - 1] * i as f64;
    }
    for (i, f) in fs.iter().enumerate() {
        let mut phi = 0.0;
        for s in 0..(1usize << m) {
            if s >> i & 1 == 0 {
                let k = s.count_ones() as usize;
                phi += fact[k] * fact[m - k - 1] / fact[m] * (v[s | 1 << i] - v[s]);
            }
        }
        out[*f] += phi;
    }
    let b = out.len() - 1;
    out[b] += v[0];
}
/// contributions of one record by method index, bias last
pub fn reference(m: &RModel, mi: usize, row: &[f64]) -> Vec<f64> {
    let cols = row.len();
    let mut out = vec![0.0; cols + 1];
    out[cols] = if mi == 5 { sigmoid(m.base) } else { m.base };
    let mut lo = m.base;
    for t in m.used() {
        if mi == 6 {
            shapley(t, row, m.missing, &mut out);
            continue;
        }
        let path = t.path(row, m.missing);
        let w = |n: usize| t.nodes[n].w as f64;
        match mi {
            0 => out[cols] += w(0),
            1 => out[cols] += avg(t, 0),
            5 => out[cols] += sigmoid(lo + w(0)) - sigmoid(lo),
            _ => {}
        }
        for k in 0..path.len() - 1 {
            let (n, ch) = (path[k], path[k + 1]);
            let nd = &t.nodes[n];
            let other = if ch == nd.left { nd.right } else { nd.left };
            let via_missing_branch = nd.ternary() && ch == nd.miss;
            let h = |n: usize| t.nodes[n].h as f64;
            out[nd.sf] += match mi {
                0 => w(ch) - w(n),
                1 => avg(t, ch) - avg(t, n),
                5 => sigmoid(lo + w(ch)) - sigmoid(lo + w(n)),
                _ if via_missing_branch => 0.0,
                2 => w(ch) - w(other),
                3 => w(ch) - (w(ch) * h(ch) + w(other) * h(other)) / (h(ch) + h(other)),
                _ => {
                    if h(nd.left) == h(nd.right) {
                        0.0
                    } else if h(nd.left) > h(nd.right) {
                        w(ch) - w(nd.left)
                    } else {
                        w(ch) - w(nd.right)
                    }
                }
            };
        }
        lo += w(*path.last().unwrap());
    }
    out
}
/// sum over trees of the largest absolute node weight (scale of rounding errors)
pub fn scale(m: &RModel) -> f64 {
    m.base.abs()
        + m.used().iter().map(|t| t.nodes.iter().fold(0.0f64, |a, n| a.max((n.w as f64).abs()))).sum::<f64>()
}
