//! C15: importances against an exact aggregation over the dumped trees.
use forust_ml::gradientbooster::ImportanceMethod;
use std::collections::BTreeMap;
use vh::synth::*;
use vh::*;

const NAMES: [&str; 5] = ["Weight", "Gain", "TotalGain", "Cover", "TotalCover"];
fn im(i: usize) -> ImportanceMethod {
    match i {
        0 => ImportanceMethod::Weight,
        1 => ImportanceMethod::Gain,
        2 => ImportanceMethod::TotalGain,
        3 => ImportanceMethod::Cover,
        _ => ImportanceMethod::TotalCover,
    }
}

fn gen(r: &mut Rng, i: usize) -> Case {
    if r.chance(0.5) {
        return gen_synth(r, 8, 7, 12);
    }
    let o = Opt { max_rows: 80, tail_rows: if i % 40 == 0 { 2000 } else { 300 }, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.p.mono = gen_mono(r, c.d.cols);
    if i % 40 == 20 {
        // few features, many splits of each
        let o = Opt { max_rows: 400, tail_rows: 900, max_cols: 2, ..Opt::default() };
        c = gen_case(r, &o);
        c.p.iterations = r.us(10, 60);
        c.p.max_depth = r.us(5, 9);
        c.p.max_leaves = usize::MAX;
        c.p.min_leaf_weight = 0.0;
        c.p.gamma = 0.0;
        c.p.nbins = 256;
        c.p.esr = None;
    }
    if r.chance(0.3) {
        c.setn("pi", r.below(c.p.iterations + 1) as f64);
    }
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = model_of(c);
    let m = RModel::of(&b)?;
    let mut refs: BTreeMap<usize, (f64, f64, f64)> = BTreeMap::new();
    for t in &m.trees {
        // every node reachable from the root, once
        let mut stack = vec![0usize];
        while let Some(n) = stack.pop() {
            let nd = &t.nodes[n];
            if !nd.leaf {
                let e = refs.entry(nd.sf).or_insert((0.0, 0.0, 0.0));
                e.0 += 1.0;
                e.1 += nd.gain as f64;
                e.2 += nd.h as f64;
                stack.extend(nd.children());
            }
        }
    }
    if m.trees.iter().any(|t| t.nodes.iter().any(|n| !n.leaf && !(n.gain.is_finite() && n.h.is_finite()))) {
        return Ok(false);
    }
    for i in 0..5 {
        let want: BTreeMap<usize, f64> = refs
            .iter()
            .map(|(k, (n, g, h))| (*k, match i { 0 => *n, 1 => g / n, 2 => *g, 3 => h / n, _ => *h }))
            .collect();
        let total: f64 = want.values().sum();
        let count: f64 = refs.values().map(|v| v.0).sum();
        for norm in [false, true] {
            let got = b.calculate_feature_importance(im(i), norm);
            let again = b.calculate_feature_importance(im(i), norm);
            let mut ks: Vec<usize> = got.keys().copied().collect();
            ks.sort();
            if ks != want.keys().copied().collect::<Vec<_>>() {
                fail!("features", "{} importance lists features {:?}, the model splits on {:?}", NAMES[i], ks, want.keys().collect::<Vec<_>>());
            }
            let mut s = 0.0;
            for (k, v) in &got {
                if again[k].to_bits() != v.to_bits() {
                    fail!("repeat", "{} importance of feature {} is {} and then {}", NAMES[i], k, v, again[k]);
                }
                let w = if norm { want[k] / total } else { want[k] };
                let tol = 2e-7 * w.abs() * (count + 4.0) + 1e-40;
                ctx.ratio(NAMES[i], (*v as f64 - w).abs() / tol);
                if !close(*v as f64, w, tol) && !(norm && total == 0.0) {
                    fail!("value", "{} importance (normalised: {}) of feature {} is {}, the splits give {}", NAMES[i], norm, k, v, w);
                }
                s += *v as f64;
            }
            if norm && !got.is_empty() && total > 0.0 && (s - 1.0).abs() > 1e-6 * (count + 4.0) {
                fail!("normalised", "{} normalised importances sum to {}", NAMES[i], s);
            }
        }
    }
    if refs.len() > 1 {
        ctx.label("several features");
    }
    if refs.values().any(|v| v.0 > 255.0) {
        ctx.label("more than 255 splits of a feature");
    }
    if m.trees.iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.ternary() && !t.nodes[n.miss].leaf)) {
        ctx.label("split below a missing branch");
    }
    if m.used().len() < m.trees.len() {
        ctx.label("truncated prediction_iteration");
    }
    Ok(refs.values().map(|v| v.0).sum::<f64>() > 1.0)
}

fn main() {
    run(Spec {
        id: "C15",
        rule: "A case is a synthetic random ensemble loaded through JSON or a trained model; the five methods, normalised or not, are compared with sums over the splits of the dumped trees. Non-trivial: the model has at least two splits. Distinct by hash of the whole case.",
        assumptions: &["importances are accumulated in single precision by the library; tolerance 2e-7 per accumulated split"],
        gen,
        check,
        quick: 40000,
        thorough: 1000000,
        valid: valid_common,
    })
}
