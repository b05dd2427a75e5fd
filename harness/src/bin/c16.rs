//! C16: evaluation history and early stopping against a reference simulation.
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 50, tail_rows: if i % 40 == 0 { 800 } else { 150 }, max_cols: 4, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.p.iterations = r.us(1, 22);
    c.p.learning_rate = *r.pick(&[1.0, 0.5, 0.3, 1.7, 0.1]);
    c.p.max_depth = c.p.max_depth.min(5);
    c.p.metric = if r.chance(0.2) { None } else { Some(r.below(4) as u8) };
    c.p.esr = if r.chance(0.7) { Some(*r.pick(&[1, 1, 2, 2, 3, 4, 6, 30])) } else { None };
    c.p.mono = gen_mono(r, c.d.cols);
    if r.chance(0.2) {
        c.p.sample = 1 + r.below(2) as u8;
        c.p.subsample = *r.pick(&[0.5, 0.8]);
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.2) {
        c.p.colsample = *r.pick(&[0.5, 0.9]);
    }
    let ne = if r.chance(0.06) { 0 } else if r.chance(0.15) { r.us(4, 9) } else { r.us(1, 3) };
    let sent = c.p.missing;
    let nan_data = {
        let mut d = c.d.clone();
        if !sent.is_nan() {
            d.x.iter_mut().for_each(|v| if *v == sent { *v = f64::NAN });
        }
        d
    };
    for k in 0..ne {
        let mut e = gen_eval(r, &nan_data, c.p.logloss, &o);
        if r.chance(0.15) && k + 1 < ne {
            // one set is the training data
            e = nan_data.clone();
        }
        let m = c.p.metric.unwrap_or(if c.p.logloss { 1 } else { 2 });
        if m <= 1 {
            e.y.iter_mut().for_each(|v| *v = if *v > 0.4 { 1.0 } else { 0.0 });
        }
        if m == 2 && r.chance(0.7) {
            e.y.iter_mut().for_each(|v| *v = v.abs());
        }
        if e.w.iter().all(|v| *v == 0.0) {
            e.w[0] = 1.0;
        }
        e.x.iter_mut().for_each(|v| if v.is_nan() { *v = sent });
        c.evals.push(e);
    }
    if c.p.metric == Some(2) && r.chance(0.6) {
        c.p.base_score = c.p.base_score.abs() + 1.0;
    }
    c
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = c.fit();
    let m = RModel::of(&b)?;
    // the same model without evaluation data
    let mut c0 = c.clone();
    c0.evals.clear();
    let m0 = RModel::of(&c0.fit())?;
    if m0.trees.len() != c.p.iterations {
        fail!("trees", "{} trees without evaluation data, {} iterations requested", m0.trees.len(), c.p.iterations);
    }
    if m0.doc["evaluation_history"] != serde_json::Value::Null || m0.best_iter.is_some() || m0.pred_iter.is_some() {
        fail!("no-eval", "history, best or prediction iteration set without evaluation data");
    }
    for (i, t) in m.trees.iter().enumerate() {
        if canon(t, 0) != canon(&m0.trees[i], 0) {
            fail!("trees", "tree {} differs with and without evaluation data", i);
        }
    }
    if m.base.to_bits() != m0.base.to_bits() {
        fail!("trees", "base score differs with and without evaluation data");
    }
    if c.evals.is_empty() {
        return Ok(false);
    }
    let ne = c.evals.len();
    let h = match &b.evaluation_history {
        None => fail!("history", "no evaluation history"),
        Some(h) => h,
    };
    if h.cols != ne || h.rows != m.trees.len() || h.data.len() != h.rows * h.cols {
        fail!("history", "history is {} x {} ({} values) for {} trees and {} evaluation sets", h.rows, h.cols, h.data.len(), m.trees.len(), ne);
    }
    let mi = c.p.metric.map(|v| v as usize).unwrap_or(if c.p.logloss { 1 } else { 2 });
    let mut nan_seen = false;
    for (k, e) in c.evals.iter().enumerate() {
        let rows: Vec<Vec<f64>> = (0..e.rows).map(|i| e.row(i)).collect();
        let mut f = vec![m.base; e.rows];
        for (i, t) in m.trees.iter().enumerate() {
            for (q, row) in rows.iter().enumerate() {
                f[q] += t.nodes[t.leaf(row, m.missing)].w as f64;
            }
            let want = metrics::metric(mi, &e.y, &f, &e.w);
            let got = *h.get(i, k);
            let sc = (0..e.rows).fold(0.0f64, |a, q| a.max(e.y[q].abs()).max(f[q].abs()));
            let tol = 1e-8 * (want.abs() + 1e-3) + if mi == 3 { 1e-13 * sc } else { 0.0 };
            nan_seen |= want.is_nan();
            if !close(got, want, tol) {
                fail!("history", "{} of evaluation set {} after {} trees is recorded as {}, computed {}", METRICS[mi], k, i + 1, got, want);
            }
        }
    }
    // early stopping from the recorded values of the last set
    let last: Vec<f64> = (0..h.rows).map(|i| *h.get(i, ne - 1)).collect();
    let maximize = mi == 0;
    match c.p.esr {
        None => {
            if h.rows != c.p.iterations || m.best_iter.is_some() || m.pred_iter.is_some() {
                fail!("stopping", "no early stopping requested: {} of {} trees, best {:?}, prediction iteration {:?}", h.rows, c.p.iterations, m.best_iter, m.pred_iter);
            }
        }
        Some(esr) => {
            let mut best = 0usize;
            let mut stop = None;
            for i in 1..last.len() {
                let (v, x) = (last[best], last[i]);
                let better = !x.is_nan() && (v.is_nan() || if maximize { x > v } else { x < v });
                if better {
                    best = i;
                } else if i - best >= esr {
                    stop = Some(i);
                    break;
                }
            }
            if let Some(s) = stop {
                if s + 1 != last.len() {
                    fail!("stopping", "should have stopped after {} trees (best {}, {} rounds), trained {}; metric {:?}", s + 1, best, esr, last.len(), last);
                }
                ctx.label("stopped early");
            } else if last.len() != c.p.iterations {
                fail!("stopping", "stopped after {} of {} trees with best {} and {} rounds; metric {:?}", last.len(), c.p.iterations, best, esr, last);
            }
            if m.best_iter != Some(best) || b.best_iteration != Some(best) {
                fail!("best", "best iteration {:?}, the recorded metric has its best at {}: {:?}", m.best_iter, best, last);
            }
            if m.pred_iter != Some(best + 1) {
                fail!("best", "prediction iteration {:?} with best iteration {}", m.pred_iter, best);
            }
            if best + 1 < last.len() {
                ctx.label("best before last");
            }
            if (1..last.len()).any(|i| i <= best && last[i] == last[i - 1]) {
                ctx.label("plateau in the metric");
            }
        }
    }
    // predictions use exactly the trees up to the best iteration
    let n_used = m.pred_iter.unwrap_or(m.trees.len());
    let pd = c.probe_data();
    let pred = b.predict(&pd.matrix(), c.p.parallel);
    for (i, row) in c.probes.iter().enumerate() {
        let want = m.predict_row_n(row, n_used);
        if !close(pred[i], want, 1e-12 * (want.abs() + m.base.abs() + 1.0)) {
            fail!("prediction", "prediction {} is not that of the first {} trees, {}", pred[i], n_used, want);
        }
    }
    if nan_seen {
        ctx.label("undefined metric value");
    }
    ctx.label(&format!("metric {}", METRICS[mi]));
    if ne > 1 {
        ctx.label("several evaluation sets");
    }
    Ok(n_splits(&m) > 0 && last.len() > 1)
}

pub fn valid(c: &Case) -> bool {
    valid_common(c) && c.p.esr != Some(0) && c.evals.iter().all(|e| e.rows > 0 && e.w.iter().any(|v| *v > 0.0))
}

fn main() {
    run(Spec {
        id: "C16",
        rule: "A case is a generated training problem with 0 to 9 evaluation sets, a metric (or the default) and 0 to 30 early-stopping rounds. History entries are compared with the metric's definition at the predictions of the truncated model, the stopping point, best and prediction iteration with a simulation over the recorded history. Non-trivial: at least one split, one evaluation set and two recorded iterations. Distinct by hash of the whole case.",
        assumptions: &["early_stopping_rounds >= 1", "every evaluation set has positive total weight"],
        gen,
        check,
        quick: 36000,
        thorough: 720000,
        valid,
    })
}
