//! Greedy structural shrinker over Case.
use crate::case::{Case, Params};
use crate::runner::{run_check, Ctx, Spec};
use std::time::{Duration, Instant};

/// Failure class: the message up to the first ':' (checks prefix messages with a stable tag).
fn class(m: &str) -> String {
    m.split(':').next().unwrap_or("").to_string()
}

pub fn shrink(spec: &Spec, case: Case, msg: String) -> (Case, String, usize) {
    let start = Instant::now();
    let mut best = case;
    let mut bmsg = msg;
    let cls = class(&bmsg);
    let mut steps = 0;
    let mut evals = 0;
    'outer: loop {
        let mut progressed = false;
        for cand in candidates(&best) {
            if start.elapsed() > Duration::from_secs(40) || evals > 6000 {
                break 'outer;
            }
            if !(spec.valid)(&cand) {
                continue;
            }
            evals += 1;
            let mut ctx = Ctx::default();
            if let Err(m) = run_check(spec, &cand, &mut ctx) {
                if class(&m) == cls {
                    best = cand;
                    bmsg = m;
                    steps += 1;
                    progressed = true;
                    break;
                }
            }
        }
        if !progressed {
            break;
        }
    }
    (best, bmsg, steps)
}

fn candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let n = c.d.rows;
    // rows: halves, quarters, single
    if n > 1 {
        let mut chunk = n / 2;
        while chunk >= 1 {
            let mut s = 0;
            while s < n {
                let e = (s + chunk).min(n);
                if e - s < n {
                    let keep: Vec<usize> = (0..n).filter(|i| *i < s || *i >= e).collect();
                    let mut k = c.clone();
                    k.d = c.d.select_rows(&keep);
                    for (name, v) in c.nums.iter() {
                        if name.starts_with("row_") && v.len() == n {
                            k.nums.insert(name.clone(), keep.iter().map(|&i| v[i]).collect());
                        }
                    }
                    out.push(k);
                }
                s += chunk;
            }
            if chunk == 1 || out.len() > 200 {
                break;
            }
            chunk /= 2;
        }
    }
    // evaluation sets
    for i in 0..c.evals.len() {
        let mut k = c.clone();
        k.evals.remove(i);
        out.push(k);
        let m = c.evals[i].rows;
        if m > 1 {
            for (a, b) in [(0, m / 2), (m / 2, m)] {
                let keep: Vec<usize> = (a..b).collect();
                let mut k = c.clone();
                k.evals[i] = c.evals[i].select_rows(&keep);
                out.push(k);
            }
        }
    }
    // probes
    if c.probes.len() > 1 {
        let m = c.probes.len();
        for (a, b) in [(0, m / 2), (m / 2, m)] {
            let mut k = c.clone();
            k.probes = c.probes[a..b].to_vec();
            out.push(k);
        }
    }
    // columns (only when nothing refers to columns by index beyond params we can remap)
    if c.d.cols > 1 && c.extra.is_null() {
        for j in 0..c.d.cols {
            let mut k = c.clone();
            k.d = c.d.drop_col(j);
            for e in k.evals.iter_mut() {
                *e = e.drop_col(j);
            }
            for p in k.probes.iter_mut() {
                p.remove(j);
            }
            if let Some(m) = &mut k.p.mono {
                m.retain(|(f, _)| *f != j);
                for e in m.iter_mut() {
                    if e.0 > j {
                        e.0 -= 1;
                    }
                }
            }
            k.p.terminate.retain(|f| *f != j);
            for e in k.p.terminate.iter_mut() {
                if *e > j {
                    *e -= 1;
                }
            }
            out.push(k);
        }
    }
    // parameters towards the default
    let dflt = Params::default();
    macro_rules! try_field {
        ($($f:ident),*) => {$(
            if format!("{:?}", c.p.$f) != format!("{:?}", dflt.$f) {
                let mut k = c.clone();
                k.p.$f = dflt.$f.clone();
                out.push(k);
            }
        )*};
    }
    try_field!(
        l1, l2, gamma, max_delta_step, min_leaf_weight, base_score, nbins, parallel, allow_missing_splits, mono, subsample,
        top_rate, other_rate, colsample, seed, missing_branch, sample, lossguide, metric, esr, init_base, terminate,
        treatment, log_iterations, force_bound, learning_rate, max_depth, max_leaves, iterations, logloss
    );
    for it in [c.p.iterations / 2, c.p.iterations.saturating_sub(1)] {
        if it >= 1 && it < c.p.iterations {
            let mut k = c.clone();
            k.p.iterations = it;
            out.push(k);
        }
    }
    if c.p.max_depth > 1 && c.p.max_depth < 1000 {
        let mut k = c.clone();
        k.p.max_depth -= 1;
        out.push(k);
    }
    // operation sequences
    if let Some(ops) = c.extra.get("ops").and_then(|o| o.as_array()) {
        for i in (0..ops.len()).rev() {
            let mut v = ops.clone();
            v.remove(i);
            let mut k = c.clone();
            k.extra["ops"] = serde_json::Value::Array(v);
            out.push(k);
        }
    }
    // simplify values (only for small cases)
    if n * c.d.cols <= 60 {
        for i in 0..c.d.x.len() {
            let v = c.d.x[i];
            if v.is_finite() {
                for nv in [0.0, 1.0, v.round()] {
                    if nv != v && nv.abs() <= v.abs() {
                        let mut k = c.clone();
                        k.d.x[i] = nv;
                        out.push(k);
                    }
                }
            }
        }
        for i in 0..n {
            let v = c.d.y[i];
            for nv in [0.0, 1.0, v.round()] {
                if nv != v && nv.abs() <= v.abs() {
                    let mut k = c.clone();
                    k.d.y[i] = nv;
                    out.push(k);
                }
            }
            if c.d.w[i] != 1.0 {
                let mut k = c.clone();
                k.d.w[i] = 1.0;
                out.push(k);
            }
        }
    }
    out
}
