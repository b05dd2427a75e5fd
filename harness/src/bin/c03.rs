//! C03: saved models load back as the same model.
use forust_ml::gradientbooster::{ContributionsMethod as CM, ImportanceMethod as IM};
use forust_ml::GradientBooster;
use vh::synth::*;
use vh::*;

const STRINGS: [&str; 14] = [
    "", "a", "plain text", "quote \" and \\ backslash", "line\nbreak\ttab", "\u{0}\u{1}\u{7f}", "ünïcödé", "日本語", "🦀🌲", "{\"json\": [1, null]}", "null", "NaN", "\u{2028}\u{feff}", "'single'",
];

fn gen(r: &mut Rng, i: usize) -> Case {
    let mut c = if r.chance(0.2) {
        gen_synth(r, 6, 6, 5)
    } else {
        let o = Opt { max_rows: 60, tail_rows: if i % 60 == 0 { 1200 } else { 200 }, ..Opt::default() };
        let mut c = gen_case(r, &o);
        c.p.mono = gen_mono(r, c.d.cols);
        if r.chance(0.25) {
            c.p.sample = 1 + r.below(2) as u8;
            c.p.subsample = r.f(0.2, 1.0) as f32;
            c.p.top_rate = r.f(0.05, 0.4);
            c.p.other_rate = r.f(0.05, 0.5);
            c.p.l2 = c.p.l2.max(0.5);
        }
        if r.chance(0.2) {
            c.p.colsample = r.f(0.2, 1.0);
        }
        if r.chance(0.5) {
            let n = r.us(1, 3);
            for _ in 0..n {
                let mut e = gen_eval(r, &c.d, c.p.logloss, &o);
                if r.chance(0.15) {
                    // one class only: AUC is undefined
                    let v = e.y[0];
                    e.y.iter_mut().for_each(|y| *y = v);
                }
                let s = c.p.missing;
                e.x.iter_mut().for_each(|v| {
                    if v.is_nan() {
                        *v = s
                    }
                });
                c.evals.push(e);
            }
            c.p.metric = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3)]);
            c.p.esr = *r.pick(&[None, Some(1), Some(3)]);
            if !c.p.logloss && matches!(c.p.metric, Some(0) | Some(1)) && r.chance(0.7) {
                c.p.metric = None;
            }
        }
        if r.chance(0.15) {
            c.kind = "unfitted".into();
        }
        if r.chance(0.2) {
            c.setn("pi", r.below(c.p.iterations + 1) as f64);
        }
        c
    };
    // awkward float parameters: exactness of the text form
    if r.chance(0.5) {
        c.p.learning_rate = r.f(0.001, 2.0) as f32;
        c.p.l2 = r.f(0.1, 5.0) as f32;
        c.p.l1 = if r.chance(0.5) { 0.0 } else { r.f(0.0, 0.5) as f32 };
        c.p.min_leaf_weight = r.f(0.01, 1.0) as f32;
        c.p.base_score = r.normal();
    }
    if r.chance(0.05) {
        c.p.base_score = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -0.0, 5e-324]);
        if c.kind == "fit" {
            c.kind = "unfitted".into();
        }
    }
    if r.chance(0.05) {
        let v = *r.pick(&[f32::MAX, 1e30, f32::MIN_POSITIVE, f32::INFINITY, f32::INFINITY, f32::from_bits(363742205), f32::from_bits(1)]);
        match r.below(5) {
            0 => c.p.l1 = v,
            1 => c.p.gamma = v,
            2 => c.p.max_delta_step = v,
            3 => c.p.min_leaf_weight = v,
            _ => c.p.l2 = v,
        }
        c.kind = if c.kind == "fit" && (!v.is_infinite() || r.chance(0.3)) { "unfitted".into() } else { c.kind };
    } else if r.chance(0.05) && !c.p.logloss && c.kind == "fit" {
        // labels so large that gains overflow single precision
        let s = *r.pick(&[1e18, 5e18, 1e19, 2e19, 1e22, 1e30]);
        c.d.y.iter_mut().for_each(|y| *y = (*y * s).clamp(-1e37, 1e37));
        c.p.metric = Some(3);
        c.strs.insert("huge".into(), "labels".into());
    }
    if c.p.logloss && c.kind == "fit" && c.p.l2 == 0.0 {
        c.p.l2 = 1.0;
    }
    c.p.seed = *r.pick(&[0, 1, u64::MAX, 1 << 63, 12345678901234567]);
    c.p.log_iterations = *r.pick(&[0, 0, 1, 7, usize::MAX]);
    for k in 0..r.below(4) {
        let key = if r.chance(0.5) { STRINGS[r.below(STRINGS.len())].to_string() } else { format!("k{}", k) };
        let len = r.below(3);
        let mut v = STRINGS[r.below(STRINGS.len())].to_string();
        for _ in 0..len {
            v.push(char::from_u32(r.below(0xd7ff) as u32).unwrap_or('x'));
        }
        c.strs.insert(key, v);
    }
    c.setn("file", if i % 8 == 0 { 1.0 } else { 0.0 });
    c
}

fn same(a: &GradientBooster, b: &GradientBooster, c: &Case, how: &str) -> Result<(), String> {
    let (da, db) = (doc_without(a, &[]), doc_without(b, &[]));
    if let Some(d) = json_diff(&da, &db, "model") {
        fail!("document", "after {} the dump differs at {}", how, d);
    }
    macro_rules! f64s { ($($f:ident),*) => { $( if a.$f.to_bits() != b.$f.to_bits() && !(a.$f.is_nan() && b.$f.is_nan()) {
        fail!("field", "after {} {} is {} and was {}", how, stringify!($f), b.$f, a.$f); } )* } }
    macro_rules! plain { ($($f:ident),*) => { $( if a.$f != b.$f { fail!("field", "after {} {} is {:?} and was {:?}", how, stringify!($f), b.$f, a.$f); } )* } }
    f64s!(learning_rate, l1, l2, gamma, max_delta_step, min_leaf_weight, base_score, subsample, top_rate, other_rate, colsample_bytree, missing);
    plain!(iterations, max_depth, max_leaves, nbins, parallel, allow_missing_splits, seed, create_missing_branch, early_stopping_rounds, initialize_base_score,
        terminate_missing_features, best_iteration, prediction_iteration, log_iterations, force_children_to_bound_parent);
    match (&a.evaluation_history, &b.evaluation_history) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            if x.rows != y.rows || x.cols != y.cols || !bits_eq(&x.data, &y.data) {
                fail!("history", "after {} the evaluation history is {:?} and was {:?}", how, y.data, x.data);
            }
        }
        _ => fail!("history", "after {} the evaluation history appears or disappears", how),
    }
    if a.trees.len() != b.trees.len() {
        fail!("trees", "after {} there are {} trees, were {}", how, b.trees.len(), a.trees.len());
    }
    for (ti, (x, y)) in a.trees.iter().zip(&b.trees).enumerate() {
        for (n, (p, q)) in x.nodes.iter().zip(&y.nodes).enumerate() {
            let ok = p.num == q.num
                && p.weight_value.to_bits() == q.weight_value.to_bits()
                && p.hessian_sum.to_bits() == q.hessian_sum.to_bits()
                && p.split_value.to_bits() == q.split_value.to_bits()
                && p.split_gain.to_bits() == q.split_gain.to_bits()
                && (p.depth, p.split_feature, p.missing_node, p.left_child, p.right_child, p.is_leaf)
                    == (q.depth, q.split_feature, q.missing_node, q.left_child, q.right_child, q.is_leaf);
            if !ok || x.nodes.len() != y.nodes.len() {
                fail!("trees", "after {} tree {} node {} changed: {} became {}", how, ti, n, p, q);
            }
        }
    }
    for (k, v) in &c.strs {
        if b.get_metadata(k).as_deref() != Some(v.as_str()) {
            fail!("metadata", "after {} metadata {:?} is {:?}, was {:?}", how, k, b.get_metadata(k), v);
        }
    }
    // behaviour
    if !c.probes.is_empty() {
        let d = c.probe_data();
        let mx = d.matrix();
        if !bits_eq(&a.predict(&mx, false), &b.predict(&mx, true)) {
            fail!("predict", "after {} predictions differ", how);
        }
        for m in 0..2 {
            let f = || if m == 0 { CM::Average } else { CM::Weight };
            if !bits_eq(&a.predict_contributions(&mx, f(), false), &b.predict_contributions(&mx, f(), false)) {
                fail!("contributions", "after {} contributions differ", how);
            }
        }
        let (ia, ib) = (a.calculate_feature_importance(IM::Gain, true), b.calculate_feature_importance(IM::Gain, true));
        if ia.len() != ib.len() || ia.iter().any(|(k, v)| ib.get(k).map(|w| (w - v).abs() <= 1e-5 * v.abs() || (w.is_nan() && v.is_nan())) != Some(true)) {
            fail!("importance", "after {} importances differ", how);
        }
        let (pa, pb) = (a.value_partial_dependence(0, c.probes[0][0]), b.value_partial_dependence(0, c.probes[0][0]));
        if !close(pa, pb, 1e-9 * (1.0 + pa.abs())) {
            fail!("pd", "after {} partial dependence {} became {}", how, pa, pb);
        }
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let mut a = if c.kind == "unfitted" { c.p.build() } else { model_of(c) };
    for (k, v) in &c.strs {
        a.insert_metadata(k.clone(), v.clone());
    }
    let s = a.json_dump().map_err(|e| format!("dump: json_dump failed: {}", e))?;
    let b = match GradientBooster::from_json(&s) {
        Ok(b) => b,
        Err(e) => fail!("load", "the dumped model does not load: {}", e),
    };
    same(&a, &b, c, "from_json(json_dump)")?;
    let b2 = GradientBooster::from_json(&b.json_dump().unwrap()).map_err(|e| format!("load: second generation does not load: {}", e))?;
    same(&a, &b2, c, "two round trips")?;
    if c.num("file") > 0.0 {
        let path = std::env::temp_dir().join(format!("vh-c03-{}-{:?}.json", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
        let path = path.to_str().unwrap().to_string();
        // saving over an existing longer file replaces it
        std::fs::write(&path, "x".repeat(s.len() + 100)).unwrap();
        let r = a.save_booster(&path).map_err(|e| e.to_string()).and_then(|_| GradientBooster::load_booster(&path).map_err(|e| e.to_string()));
        std::fs::remove_file(&path).ok();
        match r {
            Ok(f) => same(&a, &f, c, "save and load of a file")?,
            Err(e) => fail!("load", "save or load of the file failed: {}", e),
        }
        ctx.label("file round trip");
    }
    // refit of the loaded model equals refit of the original
    if c.kind == "fit" || (c.kind == "unfitted" && c.p.base_score.is_finite() && c.p.l2 < 100.0 && c.p.l2 > 0.01) {
        let (mut x, mut y) = (a, b);
        x.prediction_iteration = if x.trees.is_empty() { None } else { x.prediction_iteration };
        y.prediction_iteration = x.prediction_iteration;
        c.fit_into(&mut x)?;
        c.fit_into(&mut y)?;
        same(&x, &y, c, "refit of the loaded model")?;
        ctx.label("refitted after loading");
        let t = y.trees.iter().any(|t| t.nodes.len() > 1);
        if y.evaluation_history.as_ref().map_or(false, |h| h.data.iter().any(|v| !v.is_finite())) {
            ctx.label("non-finite evaluation history");
        }
        if y.trees.iter().any(|t| t.nodes.iter().any(|n| n.split_gain.is_infinite())) {
            ctx.label("infinite gain");
        }
        if y.trees.iter().any(|t| t.nodes.iter().any(|n| !n.split_value.is_finite())) {
            ctx.label("non-finite split value");
        }
        return Ok(t);
    }
    Ok(true)
}

fn main() {
    run(Spec {
        id: "C03",
        rule: "A case is a booster (unfitted, trained with any parameters/evaluation sets, or synthetic) with arbitrary metadata; it is dumped, loaded, dumped and loaded again, saved to and loaded from a scratch file, and refitted; every field, node, metric and prediction must be bit-identical. Non-trivial: unfitted with unusual parameters, or a model with at least one split.",
        assumptions: &["importances are compared within 1e-5 because the float summation order of a hash map is not fixed"],
        gen,
        check,
        quick: 24000,
        thorough: 480000,
        valid: |c| c.kind != "fit" || valid_common(c),
    })
}
