//! C20: invalid inputs are rejected cleanly; valid ones never crash.
use forust_ml::gradientbooster::{ContributionsMethod as CM, ImportanceMethod as IM};
use forust_ml::GradientBooster;
use serde_json::{json, Value};
use vh::*;

const FIELDS: [&str; 10] = ["learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample", "top_rate", "other_rate", "colsample"];
fn set_field(p: &mut Params, f: usize, v: f64) {
    match f {
        0 => p.learning_rate = v as f32,
        1 => p.l1 = v as f32,
        2 => p.l2 = v as f32,
        3 => p.gamma = v as f32,
        4 => p.max_delta_step = v as f32,
        5 => p.min_leaf_weight = v as f32,
        6 => p.subsample = v as f32,
        7 => p.top_rate = v,
        8 => p.other_rate = v,
        _ => p.colsample = v,
    }
}

/// Newton steps are defined: with l2 = 0 a node without hessian would give 0/0.
fn regularised(p: &Params, d: &Data) -> bool {
    p.l2 > 0.0 || (!p.logloss && p.sample == 0 && p.min_leaf_weight >= 0.01 && d.w.iter().any(|w| *w > 0.0))
}
fn degenerate(r: &mut Rng) -> Case {
    let n = *r.pick(&[1, 2, 2, 3, 4, 5, 8, 8, 20, 20, 60]);
    let cols = r.us(1, 5);
    let mut p = gen_params(r);
    let mut x = vec![];
    for _ in 0..cols {
        let k = r.below(16);
        let col: Vec<f64> = match k {
            0 => vec![f64::NAN; n],
            1 => vec![r.int(-2, 2) as f64; n],
            2 => vec![*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.0]); n],
            3 => (0..n).map(|i| if i == 0 { 1.0 } else { f64::NAN }).collect(),
            4 => (0..n).map(|_| *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0])).collect(),
            5 => (0..n).map(|_| f64::from_bits(r.below(20) as u64)).collect(),
            6 => (0..n).map(|_| *r.pick(&[f64::MAX, -f64::MAX, 1e308, 9.9e307, -1e308])).collect(),
            _ => gen_col(r, n, &Opt::default()),
        };
        x.extend(col);
    }
    let mut d = Data { rows: n, cols, x, y: vec![0.0; n], w: vec![1.0; n] };
    d.y = if p.logloss {
        match r.below(3) {
            0 => vec![r.below(2) as f64; n],
            _ if n > 4 => gen_y(r, &d, true, &Opt::default()),
            _ => (0..n).map(|_| r.below(2) as f64).collect(),
        }
    } else {
        let s = *r.pick(&[1.0, 1.0, 1e10, 1e-30, 0.0]);
        (0..n).map(|_| r.normal() * s).collect()
    };
    d.w = match r.below(5) {
        0 => (0..n).map(|_| r.below(2) as f64).collect(),
        1 if r.chance(0.2) => vec![0.0; n],
        2 => (0..n).map(|_| *r.pick(&[0.0, 1e-30, 1e3, 1.0])).collect(),
        _ => vec![1.0; n],
    };
    p.nbins = *r.pick(&[1, 2, 3, 256, 1000]);
    p.iterations = *r.pick(&[0, 1, 1, 2, 2, 2, 5, 5]);
    p.max_leaves = if r.chance(0.7) { usize::MAX } else { *r.pick(&[0, 1, 2, 3, 100]) };
    p.max_depth = if r.chance(0.1) { 0 } else { *r.pick(&[1, 2, 5, 5, 1000, usize::MAX - 1]) };
    p.min_leaf_weight = if r.chance(0.1) { 1e10 } else { *r.pick(&[0.0, 0.0, 1e-30, 0.01, 0.01, 0.1, 1.0]) };
    p.gamma = if r.chance(0.9) { 0.0 } else { 1.0 };
    p.l2 = *r.pick(&[1.0, 0.0, 0.1]);
    if p.l2 == 0.0 && !p.logloss {
        p.min_leaf_weight = p.min_leaf_weight.max(0.01);
        p.sample = 0;
    }
    p.learning_rate = *r.pick(&[0.3, 1.0, 0.0]);
    p.init_base = r.chance(0.4);
    if d.w.iter().all(|v| *v == 0.0) {
        // no weighted label: an initial score is undefined
        p.init_base = false;
    }
    p.force_bound = r.chance(0.2);
    p.sample = if p.l2 == 0.0 { 0 } else { *r.pick(&[0, 0, 0, 1, 2]) };
    p.subsample = *r.pick(&[1.0, 0.5, 0.01]);
    p.colsample = *r.pick(&[1.0, 1.0, 0.5, 0.1]);
    p.terminate = if r.chance(0.3) { vec![0, 17] } else { vec![] };
    if !regularised(&p, &d) {
        p.l2 = 0.5;
    }
    let mono = gen_mono(r, cols + 1);
    p.mono = mono;
    let mut c = Case { kind: "degenerate".into(), p, d, ..Case::default() };
    for _ in 0..r.us(1, 4) {
        c.probes.push((0..cols).map(|_| *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0, f64::MAX, f64::MIN])).collect());
    }
    if r.chance(0.3) {
        let mut e = c.d.clone();
        if r.chance(0.5) {
            e = e.select_rows(&[0]);
        }
        c.evals.push(e);
        c.p.metric = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3)]);
        c.p.esr = *r.pick(&[None, Some(0), Some(1)]);
    }
    if r.chance(0.2) {
        let s = *r.pick(&[-9999.0, 0.0, f64::INFINITY, f64::MAX]);
        use_sentinel(&mut c, s);
    }
    c
}

fn gen(r: &mut Rng, i: usize) -> Case {
    match i % 8 {
        0 => {
            let mut c = Case { kind: "parameter".into(), p: gen_params(r), ..Case::default() };
            c.d = Data::from_rows(&[vec![0.0]], 1);
            c.setn("field", r.below(FIELDS.len()) as f64);
            c.setn("value", *r.pick(&[f64::NAN, -1.0, -0.001, f64::NEG_INFINITY, -1e-30, -5.0]));
            c
        }
        1 | 2 => {
            let o = Opt { max_rows: 25, tail_rows: 25, max_cols: 3, ..Opt::default() };
            let mut c = gen_case(r, &o);
            c.kind = "rejected-fit".into();
            c.p.init_base = r.chance(0.7);
            if c.p.logloss {
                ensure_two_class(&mut c.d);
            }
            if c.p.missing.is_nan() {
                for _ in 0..r.below(4) {
                    let e = gen_eval(r, &c.d, c.p.logloss, &o);
                    c.evals.push(e);
                }
            }
            // where the invalid value goes: 0 train, k evaluation set k-1
            let place = r.below(c.evals.len() + 1);
            let rows = if place == 0 { c.d.rows } else { c.evals[place - 1].rows };
            c.setn("place", place as f64);
            c.setn("row", r.below(rows) as f64);
            c.setn("what", r.below(3) as f64); // NaN label, NaN weight, negative weight
            c.setn("neg", *r.pick(&[-1.0, -1e-12, f64::NEG_INFINITY, -3.5]));
            c.setn("fitted", r.below(2) as f64);
            c
        }
        3 | 4 => {
            let o = Opt { max_rows: 12, tail_rows: 12, max_cols: 3, ..Opt::default() };
            let mut c = gen_case(r, &o);
            c.p.iterations = c.p.iterations.min(2);
            c.p.max_depth = c.p.max_depth.min(3);
            c.kind = "document".into();
            let muts: Vec<f64> = (0..r.us(1, 3)).flat_map(|_| [r.below(10) as f64, r.below(1 << 20) as f64, r.below(1 << 20) as f64]).collect();
            c.nums.insert("mutations".into(), muts);
            c
        }
        5 => {
            // ordinary data, nothing to stop the growth but the data
            let o = Opt { max_rows: 60, tail_rows: 300, ..Opt::default() };
            let mut c = gen_case(r, &o);
            c.kind = "degenerate".into();
            c.p.min_leaf_weight = *r.pick(&[0.0, 0.0, 0.0, 1e-30, 0.01]);
            c.p.l2 = c.p.l2.max(0.1);
            c.p.gamma = 0.0;
            c.p.max_leaves = usize::MAX;
            c.p.max_depth = usize::MAX - 1;
            c.p.mono = if r.chance(0.3) { gen_mono(r, c.d.cols) } else { None };
            c.p.force_bound = r.chance(0.2);
            c
        }
        _ => degenerate(r),
    }
}

fn all_paths(v: &Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                let mut p = at.clone();
                p.push(k.clone());
                out.push(p.clone());
                all_paths(x, p, out);
            }
        }
        Value::Array(a) => {
            for (k, x) in a.iter().enumerate() {
                let mut p = at.clone();
                p.push(k.to_string());
                out.push(p.clone());
                all_paths(x, p, out);
            }
        }
        _ => {}
    }
}
fn parent_mut<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut cur = v;
    for k in &path[..path.len() - 1] {
        cur = match cur {
            Value::Object(o) => o.get_mut(k).unwrap(),
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    cur
}
fn mutate(doc: &str, kind: usize, a: usize, b: usize) -> String {
    if kind >= 5 {
        // text level
        let mut bytes: Vec<u8> = doc.bytes().collect();
        if bytes.is_empty() {
            return String::new();
        }
        let i = a % bytes.len();
        match kind {
            5 => bytes.truncate(i),
            6 => bytes[i] = (b % 128) as u8,
            7 => {
                bytes.remove(i);
            }
            8 => {
                let j = b % bytes.len();
                let (s, e) = (i.min(j), i.max(j));
                bytes.drain(s..e);
            }
            _ => bytes.insert(i, b"{}[]\",:0-"[b % 9]),
        }
        return String::from_utf8_lossy(&bytes).into_owned();
    }
    let Ok(mut v) = serde_json::from_str::<Value>(doc) else { return doc.to_string() };
    let mut paths = vec![];
    all_paths(&v, vec![], &mut paths);
    if paths.is_empty() {
        return doc.to_string();
    }
    let path = &paths[a % paths.len()];
    let vals = [
        json!(null), json!(true), json!(0), json!(-1), json!(1e300), json!(18446744073709551615u64), json!("NaN"), json!("x"), json!([]), json!({}),
        json!([1, 2]), json!({"a": 1}), json!(0.5), json!(-0.0), json!("Infinity"),
    ];
    let parent = parent_mut(&mut v, path);
    let key = path.last().unwrap();
    match (parent, kind) {
        (Value::Object(o), 0) => {
            o.remove(key);
        }
        (Value::Object(o), 1) => {
            let x = o.remove(key).unwrap();
            o.insert(format!("{}_", key), x);
        }
        (Value::Object(o), _) => {
            o.insert(key.clone(), vals[b % vals.len()].clone());
        }
        (Value::Array(ar), 0) => {
            ar.remove(key.parse::<usize>().unwrap());
        }
        (Value::Array(ar), 1) => {
            let x = ar[key.parse::<usize>().unwrap()].clone();
            ar.push(x);
        }
        (Value::Array(ar), _) => ar[key.parse::<usize>().unwrap()] = vals[b % vals.len()].clone(),
        _ => {}
    }
    v.to_string()
}

fn exercise(b: &GradientBooster, d: &Data, ll: bool) -> Result<Vec<f64>, String> {
    let m = d.matrix();
    let p = b.predict(&m, true);
    if p.len() != d.rows {
        return Err(format!("shape: {} predictions for {} records", p.len(), d.rows));
    }
    let l = b.predict_leaf_indices(&m);
    if l.len() % d.rows.max(1) != 0 {
        return Err("shape: leaf indices".into());
    }
    for cm in [CM::Weight, CM::Average, CM::Shapley, CM::BranchDifference, CM::MidpointDifference, CM::ModeDifference] {
        if b.predict_contributions(&m, cm, false).len() != d.rows * (d.cols + 1) {
            return Err("shape: contributions".into());
        }
    }
    if ll {
        b.predict_contributions(&m, CM::ProbabilityChange, false);
    }
    for f in 0..d.cols {
        b.value_partial_dependence(f, d.get(0, f));
    }
    for im in [IM::Weight, IM::Gain, IM::TotalGain, IM::Cover, IM::TotalCover] {
        b.calculate_feature_importance(im, false);
    }
    Ok(p)
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    match c.kind.as_str() {
        "parameter" => {
            let f = c.num("field") as usize;
            if let Err(e) = c.p.try_build() {
                fail!("valid", "valid parameters rejected: {}", e);
            }
            let mut p = c.p.clone();
            set_field(&mut p, f, c.num("value"));
            if p.try_build().is_ok() {
                fail!("parameter", "{} = {} is accepted", FIELDS[f], c.num("value"));
            }
            // zero is allowed
            let mut p = c.p.clone();
            set_field(&mut p, f, 0.0);
            if let Err(e) = p.try_build() {
                fail!("valid", "{} = 0 rejected: {}", FIELDS[f], e);
            }
            Ok(true)
        }
        "rejected-fit" => {
            let mut b = c.p.build();
            if c.num("fitted") == 1.0 {
                c.fit_into(&mut b)?;
                b.insert_metadata("k".into(), "v".into());
            }
            let before = doc_without(&b, &[]);
            let mut bad = c.clone();
            let place = c.num("place") as usize;
            {
                let d = if place == 0 { &mut bad.d } else { &mut bad.evals[place - 1] };
                let i = c.num("row") as usize;
                match c.num("what") as usize {
                    0 => d.y[i] = f64::NAN,
                    1 => d.w[i] = f64::NAN,
                    _ => d.w[i] = c.num("neg"),
                }
            }
            // different labels elsewhere, so a partial fit would show
            bad.d.y.iter_mut().for_each(|v| *v = if c.p.logloss { 1.0 - *v } else { *v + 3.0 });
            let what = ["NaN label", "NaN weight", "negative weight"][c.num("what") as usize];
            match guarded(|| bad.fit_into(&mut b)) {
                Err(e) => fail!("reject", "{} in {} crashes: {}", what, if place == 0 { "training data" } else { "evaluation data" }, e),
                Ok(Ok(())) => fail!("reject", "{} in {} (record {}) is accepted", what, if place == 0 { "training data" } else { "evaluation data" }, c.num("row")),
                Ok(Err(_)) => {}
            }
            let after = doc_without(&b, &[]);
            if let Some(d) = json_diff(&before, &after, "") {
                fail!("unchanged", "a rejected fit changed the booster: {}", d);
            }
            ctx.label(if place == 0 { "training data" } else { "evaluation data" });
            ctx.label(what);
            Ok(true)
        }
        "document" => {
            let b = c.fit();
            let mut doc = b.json_dump().map_err(|e| format!("dump: {}", e))?;
            let mu = &c.nums["mutations"];
            for k in mu.chunks(3) {
                doc = mutate(&doc, k[0] as usize, k[1] as usize, k[2] as usize);
            }
            let r = guarded(|| GradientBooster::from_json(&doc).map(|b| b.json_dump().is_ok()).map_err(|e| e.to_string()));
            match r {
                Err(e) => fail!("load", "loading a damaged document crashes: {} ({})", e, doc.chars().take(300).collect::<String>()),
                Ok(Ok(_)) => ctx.label("damaged document loads"),
                Ok(Err(_)) => ctx.label("damaged document rejected"),
            }
            match guarded(|| GradientBooster::load_booster("/nonexistent-dir/model.json").is_err()) {
                Ok(true) => {}
                Ok(false) => fail!("load", "loading a missing file succeeds"),
                Err(e) => fail!("load", "loading a missing file crashes: {}", e),
            }
            match guarded(|| b.save_booster("/nonexistent-dir/model.json").is_err()) {
                Ok(true) => {}
                Ok(false) => fail!("save", "saving into a missing directory succeeds"),
                Err(e) => fail!("save", "saving into a missing directory crashes: {}", e),
            }
            Ok(true)
        }
        _ => {
            let mut b = c.p.build();
            // only the fit may report an error (as a value)
            match guarded(|| c.fit_into(&mut b)) {
                Err(e) => fail!("crash", "fit crashes on valid data: {}", e),
                Ok(Err(e)) => fail!("error", "fit reports an error on valid data: {}", e),
                Ok(Ok(())) => {}
            }
            let mut rows = c.probes.clone();
            for i in 0..c.d.rows.min(10) {
                rows.push(c.d.row(i));
            }
            let d = Data::from_rows(&rows, c.d.cols);
            let p = match guarded(|| exercise(&b, &d, c.p.logloss)) {
                Err(e) => fail!("crash", "scoring crashes: {}", e),
                Ok(r) => r?,
            };
            let m = match guarded(|| RModel::of(&b)) {
                Err(e) => fail!("crash", "dump crashes: {}", e),
                Ok(r) => r?,
            };
            if b.base_score.is_finite() && c.p.l2 > 0.0 {
                ctx.label("finite check");
                for (i, v) in p.iter().enumerate() {
                    if !v.is_finite() {
                        fail!("finite", "prediction {} for {:?}", v, rows[i]);
                    }
                }
            }
            if n_splits(&m) > 0 {
                ctx.label("degenerate data with a split");
            }
            Ok(true)
        }
    }
}

fn main() {
    run(Spec {
        id: "C20",
        rule: "A case is (a) a constructor call with one NaN or negative numeric parameter, (b) a fit with one NaN label, NaN or negative weight at a generated position of the training or an evaluation set, on a fresh or a fitted booster whose full dump is compared before and after, (c) a model document mutated structurally or as text, or (d) a degenerate but valid dataset (constant, missing, infinite, subnormal or huge columns, zero weights, one class, one record, extreme parameter limits) fitted and scored in every way. All cases count as non-trivial. Distinct by hash of the whole case.",
        assumptions: &["labels up to 1e11 and weights up to 1e3 in magnitude (gradients are single precision)", "l2 > 0, or squared loss without row sampling and min_leaf_weight >= 0.01 (otherwise a Newton step can be 0/0)", "an initialised base score needs some positive weight", "finite predictions are required when l2 > 0 and the base score is finite"],
        gen,
        check,
        quick: 160000,
        thorough: 3200000,
        valid: |c| (!c.p.init_base || c.d.w.iter().any(|v| *v > 0.0)) && regularised(&c.p, &c.d) && c.d.rows > 0 && c.d.cols > 0 && (c.kind != "rejected-fit" || (c.num("row") as usize) < if c.num("place") == 0.0 { c.d.rows } else { c.evals.get(c.num("place") as usize - 1).map(|e| e.rows).unwrap_or(0) }) && (!c.p.logloss || c.d.y.iter().chain(c.evals.iter().flat_map(|e| e.y.iter())).all(|v| (0.0..=1.0).contains(v))),
    })
}
