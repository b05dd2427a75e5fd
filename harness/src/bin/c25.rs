//! C25: operation histories on one booster, against a fresh booster with the last fit only.
use forust_ml::gradientbooster::ImportanceMethod as IM;
use forust_ml::GradientBooster;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vh::setters::*;
use vh::contrib::{method, METHODS};
use vh::*;

fn gen_op(r: &mut Rng) -> Value {
    match r.below(20) {
        0..=4 => json!({"op": "fit", "sel": r.below(6), "evals": r.below(3), "drop": r.chance(0.25), "unweighted": r.chance(0.2)}),
        5 => json!({"op": "badfit", "sel": r.below(6), "which": r.below(5), "row": r.below(1000)}),
        6..=8 => json!({"op": "set", "field": FIELDS[r.below(FIELDS.len())], "v": r.below(1000), "setter": r.chance(0.7)}),
        9 => json!({"op": "pi", "k": r.below(1000), "setter": r.chance(0.5)}),
        10 | 11 => json!({"op": "predict", "par": r.chance(0.5)}),
        12 => json!({"op": "contrib", "m": r.below(METHODS.len()), "par": r.chance(0.5)}),
        13 => json!({"op": "leaves"}),
        14 => json!({"op": "importance", "m": r.below(5), "norm": r.chance(0.5)}),
        15 => json!({"op": "pd", "f": r.below(100), "p": r.below(100)}),
        16 => json!({"op": "reload", "file": r.chance(0.2)}),
        17 => json!({"op": "meta", "k": format!("k{}", r.below(3)), "v": format!("v{}", r.below(100))}),
        _ => json!({"op": "dump"}),
    }
}

fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 40, tail_rows: if i % 50 == 0 { 300 } else { 80 }, max_cols: 5, big: 1, ..Opt::default() };
    let mut c = gen_case(r, &o);
    // labels usable under both objectives
    c.d.y = c.d.y.iter().map(|y| if *y > 0.5 { 1.0 } else { 0.0 }).collect();
    ensure_two_class(&mut c.d);
    c.p.logloss = r.chance(0.5);
    c.p.l2 = c.p.l2.max(0.1);
    c.p.mono = gen_mono(r, c.d.cols);
    for _ in 0..2 {
        let mut e = gen_eval(r, &c.d, true, &o);
        let s = c.p.missing;
        e.x.iter_mut().for_each(|v| {
            if v.is_nan() {
                *v = s
            }
        });
        c.evals.push(e);
    }
    c.p.esr = *r.pick(&[None, Some(1), Some(2)]);
    let n = r.us(3, 16);
    let mut ops: Vec<Value> = (0..n).map(|_| gen_op(r)).collect();
    if r.chance(0.8) {
        ops.insert(0, json!({"op": "fit", "sel": r.below(6), "evals": r.below(3), "drop": false, "unweighted": false}));
    }
    c.extra = json!({ "ops": ops });
    c.kind = "history".into();
    c
}

fn subset(d: &Data, sel: usize, drop: bool) -> Data {
    let keep: Vec<usize> = (0..d.rows).filter(|i| sel == 0 || (i * 7 + sel * 3) % (sel + 2) != 0).collect();
    let keep = if keep.is_empty() { vec![0] } else { keep };
    let mut s = d.select_rows(&keep);
    if sel % 2 == 1 {
        let m: Vec<usize> = (0..s.rows).rev().collect();
        s = s.select_rows(&m);
    }
    if drop && s.cols > 1 {
        s = s.drop_col(0);
    }
    s
}

fn docs(b: &GradientBooster) -> Value {
    doc_without(b, &[])
}

struct State {
    b: GradientBooster,
    cur: Params,
    /// fresh booster that saw only the last successful fit
    fresh: GradientBooster,
    cols: usize,
    meta: BTreeMap<String, String>,
    dirty: bool, // a parameter that scoring uses was changed after the fit
}

impl State {
    fn check_dump(&self, when: &str) -> Result<(), String> {
        let mut got = docs(&self.b);
        let mut want = docs(&self.cur.build());
        let f = docs(&self.fresh);
        for k in ["trees", "evaluation_history", "best_iteration", "prediction_iteration"] {
            want[k] = f[k].clone();
        }
        let md = got.as_object_mut().unwrap().remove("metadata").unwrap_or(Value::Null);
        want.as_object_mut().unwrap().remove("metadata");
        if let Some(d) = json_diff(&want, &got, "model") {
            fail!("dump", "{}: expected vs actual model differ at {}", when, d);
        }
        for (k, v) in &self.meta {
            if self.b.get_metadata(k).as_deref() != Some(v.as_str()) || md[k].as_str() != Some(v.as_str()) {
                fail!("metadata", "{}: metadata {} is {:?} (dump: {}), was set to {}", when, k, self.b.get_metadata(k), md[k], v);
            }
        }
        if md.as_object().map(|m| m.len()) != Some(self.meta.len()) {
            fail!("metadata", "{}: dump has metadata {}, expected {:?}", when, md, self.meta);
        }
        Ok(())
    }
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let mut s = State { b: c.p.build(), cur: c.p.clone(), fresh: c.p.build(), cols: c.d.cols, meta: BTreeMap::new(), dirty: false };
    let empty = vec![];
    let ops = c.extra["ops"].as_array().unwrap_or(&empty);
    let mut fits = 0;
    let mut reads_after_refit = 0;
    let u = |o: &Value, k: &str| o[k].as_u64().unwrap_or(0) as usize;
    let t = |o: &Value, k: &str| o[k].as_bool().unwrap_or(false);
    let mut all: Vec<Value> = ops.clone();
    // every history ends with all reads
    all.extend([
        json!({"op": "dump"}),
        json!({"op": "predict", "par": false}),
        json!({"op": "predict", "par": true}),
        json!({"op": "leaves"}),
        json!({"op": "contrib", "m": 1, "par": true}),
        json!({"op": "importance", "m": 1, "norm": true}),
        json!({"op": "pd", "f": 0, "p": 0}),
        json!({"op": "dump"}),
    ]);
    for (k, o) in all.iter().enumerate() {
        let name = o["op"].as_str().unwrap_or("");
        let when = format!("step {} ({})", k, o);
        let probes = |cols: usize| {
            let off = c.d.cols - cols;
            let mut rows: Vec<Vec<f64>> = c.probes.iter().map(|p| p[off..].to_vec()).collect();
            for i in 0..c.d.rows.min(15) {
                rows.push(c.d.row(i)[off..].to_vec());
            }
            Data::from_rows(&rows, cols)
        };
        if s.dirty && matches!(name, "predict" | "contrib" | "pd") {
            continue;
        }
        match name {
            "fit" => {
                let d = subset(&c.d, u(o, "sel"), t(o, "drop"));
                let mut d = d;
                if t(o, "unweighted") {
                    d.w = vec![1.0; d.rows];
                }
                let sw: f64 = d.w.iter().sum();
                let sp: f64 = d.w.iter().zip(&d.y).map(|(w, y)| w * y).sum();
                if sw == 0.0 || (s.cur.logloss && s.cur.init_base && !(sp > 1e-9 * sw && sp < (1.0 - 1e-9) * sw)) {
                    continue;
                }
                let off = c.d.cols - d.cols;
                let evs: Vec<Data> = c.evals.iter().take(u(o, "evals")).map(|e| if off > 0 { e.drop_col(0) } else { e.clone() }).collect();
                let fit = |b: &mut GradientBooster, unw: bool| -> Result<(), String> {
                    let m = d.matrix();
                    let ev = if evs.is_empty() { None } else { Some(evs.iter().map(|e| (e.matrix(), e.y.as_slice(), e.w.as_slice())).collect()) };
                    if unw {
                        b.fit_unweighted(&m, &d.y, ev).map_err(|e| e.to_string())
                    } else {
                        b.fit(&m, &d.y, &d.w, ev).map_err(|e| e.to_string())
                    }
                };
                fit(&mut s.b, t(o, "unweighted")).map_err(|e| format!("fit: {}: {}", when, e))?;
                let mut q = s.cur.clone();
                if q.init_base {
                    // a base score that the fit computes does not depend on the one before
                    q.base_score = if u(o, "sel") % 2 == 0 { 0.5 } else { c.p.base_score };
                }
                let mut fresh = q.build();
                fit(&mut fresh, false).map_err(|e| format!("fit: fresh booster, {}: {}", when, e))?;
                s.cur.base_score = fresh.base_score;
                s.fresh = fresh;
                s.cols = d.cols;
                s.dirty = false;
                fits += 1;
                if s.b.evaluation_history.is_some() {
                    ctx.label("fit with evaluation data");
                }
                s.check_dump(&when)?;
            }
            "badfit" => {
                let mut d = subset(&c.d, u(o, "sel"), false);
                let i = u(o, "row") % d.rows;
                let mut e = c.evals.first().cloned().unwrap_or_else(|| d.clone());
                let j = u(o, "row") % e.rows;
                match u(o, "which") {
                    0 => d.y[i] = f64::NAN,
                    1 => d.w[i] = f64::NAN,
                    2 => d.w[i] = -1.0,
                    3 => e.y[j] = f64::NAN,
                    _ => e.w[j] = -0.5,
                }
                let m = d.matrix();
                let r = s.b.fit(&m, &d.y, &d.w, Some(vec![(e.matrix(), &e.y, &e.w)]));
                if r.is_ok() {
                    fail!("badfit", "{}: invalid input was accepted", when);
                }
                s.check_dump(&when)?;
                ctx.label("rejected fit");
            }
            "set" => {
                let f = o["field"].as_str().unwrap_or("");
                let b = std::mem::take(&mut s.b);
                s.b = set(b, &mut s.cur, f, u(o, "v"), t(o, "setter"), c.d.cols);
                if f == "base_score" && !s.b.trees.is_empty() {
                    s.dirty = true;
                }
                if s.b.trees.is_empty() {
                    s.fresh = s.cur.build();
                }
                s.check_dump(&when)?;
            }
            "pi" => {
                if s.b.trees.is_empty() {
                    continue;
                }
                let v = u(o, "k") % (s.b.trees.len() + 2);
                let v = if v > s.b.trees.len() { None } else { Some(v) };
                if t(o, "setter") && v != Some(0) {
                    // the core setter takes the (zero based) last iteration, the field the number of trees
                    s.b = std::mem::take(&mut s.b).set_prediction_iteration(v.map(|i| i - 1));
                } else {
                    s.b.prediction_iteration = v;
                }
                s.fresh.prediction_iteration = v;
            }
            "predict" => {
                let d = probes(s.cols);
                let (x, y) = (s.b.predict(&d.matrix(), t(o, "par")), s.fresh.predict(&d.matrix(), false));
                if !bits_eq(&x, &y) {
                    fail!("predict", "{}: {:?}, a fresh booster gives {:?}", when, x, y);
                }
                reads_after_refit += (fits > 1) as usize;
            }
            "contrib" => {
                let mi = u(o, "m") % METHODS.len();
                if (METHODS[mi] == "ProbabilityChange" && (!s.cur.logloss || !matches!(s.fresh.objective_type, forust_ml::objective::ObjectiveType::LogLoss) || !s.fresh.base_score.is_finite())) || (METHODS[mi] == "Shapley" && s.b.trees.iter().any(|t| t.nodes.len() > 60)) {
                    continue;
                }
                let d = probes(s.cols);
                let (x, y) = (s.b.predict_contributions(&d.matrix(), method(mi), t(o, "par")), s.fresh.predict_contributions(&d.matrix(), method(mi), false));
                if !bits_eq(&x, &y) {
                    fail!("contributions", "{}: {} contributions differ from those of a fresh booster", when, METHODS[mi]);
                }
            }
            "leaves" => {
                let d = probes(s.cols);
                if s.b.predict_leaf_indices(&d.matrix()) != s.fresh.predict_leaf_indices(&d.matrix()) {
                    fail!("leaves", "{}: leaf indices differ from those of a fresh booster", when);
                }
            }
            "importance" => {
                let f = || match u(o, "m") {
                    0 => IM::Weight,
                    1 => IM::Gain,
                    2 => IM::Cover,
                    3 => IM::TotalGain,
                    _ => IM::TotalCover,
                };
                let (x, y) = (s.b.calculate_feature_importance(f(), t(o, "norm")), s.fresh.calculate_feature_importance(f(), t(o, "norm")));
                if x.len() != y.len() || x.iter().any(|(k, v)| y.get(k).map_or(true, |w| !close(*v as f64, *w as f64, 1e-5 * v.abs() as f64))) {
                    fail!("importance", "{}: {:?}, a fresh booster gives {:?}", when, x, y);
                }
            }
            "pd" => {
                let d = probes(s.cols);
                let f = u(o, "f") % s.cols;
                let v = d.get(u(o, "p") % d.rows, f);
                let (x, y) = (s.b.value_partial_dependence(f, v), s.fresh.value_partial_dependence(f, v));
                if !close(x, y, 1e-9 * (1.0 + y.abs())) {
                    fail!("pd", "{}: {}, a fresh booster gives {}", when, x, y);
                }
            }
            "reload" => {
                s.b = if t(o, "file") {
                    let path = std::env::temp_dir().join(format!("vh-c25-{}-{:?}.json", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
                    let path = path.to_str().unwrap().to_string();
                    let r = s.b.save_booster(&path).map_err(|e| e.to_string()).and_then(|_| GradientBooster::load_booster(&path).map_err(|e| e.to_string()));
                    std::fs::remove_file(&path).ok();
                    r.map_err(|e| format!("reload: {}: {}", when, e))?
                } else {
                    GradientBooster::from_json(&s.b.json_dump().map_err(|e| e.to_string())?).map_err(|e| format!("reload: {}: {}", when, e))?
                };
                s.check_dump(&when)?;
                ctx.label("reload");
            }
            "meta" => {
                let (k, v) = (o["k"].as_str().unwrap_or("k").to_string(), o["v"].as_str().unwrap_or("v").to_string());
                s.b.insert_metadata(k.clone(), v.clone());
                s.meta.insert(k, v);
            }
            _ => s.check_dump(&when)?,
        }
    }
    if fits > 1 {
        ctx.label("several fits");
    }
    ctx.add("operations", all.len() as u64);
    Ok(fits > 1 && reads_after_refit > 0 && s.b.trees.iter().any(|t| t.nodes.len() > 1))
}

fn main() {
    run(Spec {
        id: "C25",
        rule: "A case is a history of 3 to 16 operations on one booster (fits on different subsets, columns and evaluation sets, rejected fits, parameter changes by setter or field, prediction iteration, scoring, explaining, dump, reload, metadata), followed by every read. After each step the dump and every result must equal those of a fresh booster with the current parameters that saw only the last successful fit. Non-trivial: at least two fits, a split in the final model and a read after a refit.",
        assumptions: &["scoring is not compared between a change of the base score and the next fit, because the base score is both parameter and model state"],
        gen,
        check,
        quick: 16000,
        thorough: 320000,
        valid: |c| valid_common(c) && c.evals.len() == 2,
    })
}
