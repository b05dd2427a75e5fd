//! C26 (core part): parameters reach the field, the dump and the training they name.
use forust_ml::GradientBooster;
use serde_json::{json, Value};
use vh::setters::*;
use vh::*;

const KINDS: [&str; 4] = ["constructor", "setters", "defaults", "optional"];

// What training does with each parameter is decided by the reference computations of these checks.
macro_rules! subs {
    ($($m:ident $path:literal),*) => {
        $(#[path = $path] #[allow(dead_code)] mod $m;)*
        const SUBS: &[&str] = &[$(stringify!($m)),*];
        fn sub_gen(s: &str, r: &mut Rng, i: usize) -> Case {
            match s { $(stringify!($m) => $m::gen(r, i),)* _ => unreachable!() }
        }
        fn sub_check(s: &str, c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
            match s { $(stringify!($m) => $m::check(c, ctx),)* _ => Ok(false) }
        }
    };
}
subs!(c05 "c05.rs", c06 "c06.rs", c07 "c07.rs", c08 "c08.rs", c10 "c10.rs", c11 "c11.rs", c16 "c16.rs", c18 "c18.rs", c19 "c19.rs");

/// An effect case is the case of another check; its kind is effect/<check>/<kind there>.
fn gen_effect(r: &mut Rng, i: usize) -> Case {
    let s = SUBS[r.below(SUBS.len())];
    let mut c = sub_gen(s, r, i);
    if !matches!(s, "c18" | "c19") && r.chance(0.7) {
        // all different, so that no two can be confused
        c.p.learning_rate = r.f(0.05, 1.0) as f32;
        c.p.l1 = if r.chance(0.5) { r.f(0.05, 0.3) as f32 } else { 0.0 };
        c.p.l2 = r.f(0.3, 3.0) as f32;
        c.p.gamma = *r.pick(&[0.0, 0.02, 0.3, 2.0, 7.0]);
        c.p.max_delta_step = if r.chance(0.5) { r.f(0.3, 2.0) as f32 } else { 0.0 };
        c.p.min_leaf_weight = *r.pick(&[0.0, 0.1, 0.7, 1.3, 5.0]);
    }
    c.kind = format!("effect/{}/{}", s, c.kind);
    c
}
fn split_kind(c: &Case) -> Option<(String, Case)> {
    let mut it = c.kind.splitn(3, '/');
    if it.next() != Some("effect") {
        return None;
    }
    let s = it.next()?.to_string();
    let mut q = c.clone();
    q.kind = it.next().unwrap_or("").to_string();
    Some((s, q))
}
fn valid(c: &Case) -> bool {
    match split_kind(c) {
        None => valid_common(c),
        Some((s, q)) => match s.as_str() {
            "c10" => c10::valid(&q),
            "c16" => c16::valid(&q),
            "c18" => c18::valid(&q),
            "c19" => c19::valid(&q),
            _ => valid_common(&q),
        },
    }
}
/// Parameters that may be absent from a stored model, with the value they then have.
fn optional() -> Vec<(&'static str, Value)> {
    vec![
        ("l1", json!(0.0)),
        ("max_delta_step", json!(0.0)),
        ("top_rate", json!(0.1)),
        ("other_rate", json!(0.2)),
        ("colsample_bytree", json!(1.0)),
        ("sample_method", json!("None")),
        ("grow_policy", json!("DepthWise")),
        ("evaluation_metric", json!(null)),
        ("early_stopping_rounds", json!(null)),
        ("initialize_base_score", json!(false)),
        ("terminate_missing_features", json!([])),
        ("evaluation_history", json!(null)),
        ("best_iteration", json!(null)),
        ("missing_node_treatment", json!("AssignToParent")),
        ("log_iterations", json!(0)),
        ("force_children_to_bound_parent", json!(false)),
    ]
}

fn gen(r: &mut Rng, i: usize) -> Case {
    if i % 2 == 1 {
        return gen_effect(r, i / 2);
    }
    let i = i / 2;
    let o = Opt { max_rows: 50, tail_rows: 120, max_cols: 5, big: 1, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.kind = KINDS[i % 4].into();
    c.p.mono = gen_mono(r, c.d.cols);
    if r.chance(0.5) {
        // all different, so that no two can be confused
        c.p.learning_rate = r.f(0.05, 1.0) as f32;
        c.p.l1 = r.f(0.0, 0.3) as f32;
        c.p.l2 = r.f(0.3, 3.0) as f32;
        c.p.gamma = r.f(0.0, 0.1) as f32;
        c.p.max_delta_step = r.f(0.3, 2.0) as f32;
        c.p.min_leaf_weight = r.f(0.05, 0.9) as f32;
        c.p.base_score = r.normal();
    }
    c.p.subsample = r.f(0.4, 1.0) as f32;
    c.p.top_rate = r.f(0.05, 0.4);
    c.p.other_rate = r.f(0.05, 0.5);
    c.p.colsample = *r.pick(&[1.0, 0.4, 0.75]);
    c.p.sample = r.below(3) as u8;
    c.p.metric = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3)]);
    c.p.esr = *r.pick(&[None, Some(1), Some(3)]);
    c.p.force_bound = r.chance(0.3);
    c.p.parallel = r.chance(0.5);
    c.p.log_iterations = *r.pick(&[0, 0, 3]);
    c.p.terminate = (0..c.d.cols).filter(|_| r.chance(0.3)).collect();
    if c.p.sample != 0 {
        c.p.l2 = c.p.l2.max(0.3);
    }
    if r.chance(0.4) {
        let mut e = gen_eval(r, &c.d, c.p.logloss, &o);
        let s = c.p.missing;
        e.x.iter_mut().for_each(|v| {
            if v.is_nan() {
                *v = s
            }
        });
        c.evals = vec![e];
    }
    let n = r.us(2, 12);
    c.extra = json!({"ops": (0..n).map(|_| json!([r.below(FIELDS.len()), r.below(1000), r.chance(0.8)])).collect::<Vec<_>>(), "drop": r.below(16)});
    c
}

fn mono_doc(p: &Params) -> Value {
    match &p.mono {
        None => Value::Null,
        Some(m) => Value::Object(m.iter().map(|(k, v)| (k.to_string(), json!(match v { 1 => "Positive", -1 => "Negative", _ => "Unconstrained" }))).collect()),
    }
}
/// What the dump of an unfitted booster with these parameters has to say.
fn expected_doc(p: &Params) -> Value {
    let mut t = p.terminate.clone();
    t.sort();
    let f32v = |v: f32| -> Value { if v.is_infinite() { json!("inf") } else { serde_json::from_str(&format!("{:?}", v)).unwrap_or(Value::Null) } };
    let f64v = |v: f64| -> Value {
        if v.is_nan() {
            Value::Null
        } else if v.is_infinite() {
            json!(if v > 0.0 { "inf" } else { "-inf" })
        } else {
            json!(v)
        }
    };
    let sample = ["None", "Random", "Goss"][p.sample as usize];
    let metric = p.metric.map(|m| METRICS[m as usize]);
    let treatment = TREATMENTS[p.treatment as usize];
    json!({
        "objective_type": if p.logloss { "LogLoss" } else { "SquaredLoss" },
        "iterations": p.iterations, "learning_rate": f32v(p.learning_rate), "max_depth": p.max_depth, "max_leaves": p.max_leaves,
        "l1": f32v(p.l1), "l2": f32v(p.l2), "gamma": f32v(p.gamma), "max_delta_step": f32v(p.max_delta_step), "min_leaf_weight": f32v(p.min_leaf_weight),
        "base_score": f64v(p.base_score), "nbins": p.nbins, "parallel": p.parallel, "allow_missing_splits": p.allow_missing_splits,
        "monotone_constraints": mono_doc(p), "subsample": f32v(p.subsample), "top_rate": p.top_rate, "other_rate": p.other_rate,
        "colsample_bytree": p.colsample, "seed": p.seed, "missing": f64v(p.missing), "create_missing_branch": p.missing_branch,
        "sample_method": sample, "grow_policy": if p.lossguide { "LossGuide" } else { "DepthWise" },
        "evaluation_metric": metric, "early_stopping_rounds": p.esr, "initialize_base_score": p.init_base,
        "terminate_missing_features": t, "missing_node_treatment": treatment, "log_iterations": p.log_iterations,
        "force_children_to_bound_parent": p.force_bound,
    })
}
fn same_params(b: &GradientBooster, p: &Params, how: &str) -> Result<(), String> {
    let got = doc_without(b, &[]);
    for (k, v) in expected_doc(p).as_object().unwrap() {
        let same = match json_diff(v, &got[k], k) {
            None => true,
            // a float parameter may be written with more digits than needed
            Some(_) => match (v.as_f64(), got[k].as_f64()) {
                (Some(x), Some(y)) => x as f32 == y as f32 && matches!(k.as_str(), "learning_rate" | "l1" | "l2" | "gamma" | "max_delta_step" | "min_leaf_weight" | "subsample"),
                _ => false,
            },
        };
        if !same {
            fail!("dump", "{}: the dump reports {} = {}, given was {}", how, k, got[k], v);
        }
    }
    macro_rules! eq { ($($bf:ident $pf:ident),*) => { $( if b.$bf != p.$pf { fail!("field", "{}: {} is {:?}, given was {:?}", how, stringify!($bf), b.$bf, p.$pf); } )* } }
    eq!(iterations iterations, learning_rate learning_rate, max_depth max_depth, max_leaves max_leaves, l1 l1, l2 l2, gamma gamma, max_delta_step max_delta_step,
        min_leaf_weight min_leaf_weight, base_score base_score, nbins nbins, parallel parallel, allow_missing_splits allow_missing_splits, subsample subsample,
        top_rate top_rate, other_rate other_rate, colsample_bytree colsample, seed seed, create_missing_branch missing_branch, early_stopping_rounds esr,
        initialize_base_score init_base, log_iterations log_iterations, force_children_to_bound_parent force_bound);
    if b.missing.to_bits() != p.missing.to_bits() && !(b.missing.is_nan() && p.missing.is_nan()) {
        fail!("field", "{}: missing is {}, given was {}", how, b.missing, p.missing);
    }
    Ok(())
}
fn fit(c: &Case, b: &mut GradientBooster) -> Result<(), String> {
    c.fit_into(b).map_err(|e| format!("fit: {}", e))
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    if let Some((s, q)) = split_kind(c) {
        ctx.label(&format!("effect decided as in {}", s));
        return sub_check(&s, &q, ctx).map_err(|e| format!("effect: {} (as in {})", e, s));
    }
    let p = &c.p;
    match c.kind.as_str() {
        "constructor" => {
            let mut b = p.build();
            same_params(&b, p, "constructor")?;
            fit(c, &mut b)?;
            let mut q = p.clone();
            if p.init_base {
                q.base_score = b.base_score;
            }
            same_params(&b, &q, "after fit")?;
            Ok(b.trees.iter().any(|t| t.nodes.len() > 1))
        }
        "setters" => {
            // a random walk over setters, then all of them from the default to the same target
            let mut q = p.clone();
            let mut b = p.build();
            let none = vec![];
            for o in c.extra["ops"].as_array().unwrap_or(&none) {
                let f = FIELDS[o[0].as_u64().unwrap_or(0) as usize % FIELDS.len()];
                b = set(b, &mut q, f, o[1].as_u64().unwrap_or(0) as usize, o[2].as_bool().unwrap_or(true), c.d.cols);
                same_params(&b, &q, &format!("after setting {}", f))?;
            }
            let mut s = GradientBooster::default()
                .set_objective_type(p.objective())
                .set_iterations(p.iterations)
                .set_learning_rate(p.learning_rate)
                .set_max_depth(p.max_depth)
                .set_max_leaves(p.max_leaves)
                .set_nbins(p.nbins)
                .set_l1(p.l1)
                .set_l2(p.l2)
                .set_gamma(p.gamma)
                .set_max_delta_step(p.max_delta_step)
                .set_min_leaf_weight(p.min_leaf_weight)
                .set_base_score(p.base_score)
                .set_initialize_base_score(p.init_base)
                .set_parallel(p.parallel)
                .set_allow_missing_splits(p.allow_missing_splits)
                .set_monotone_constraints(p.constraint_map())
                .set_subsample(p.subsample)
                .set_colsample_bytree(p.colsample)
                .set_seed(p.seed)
                .set_missing(p.missing)
                .set_create_missing_branch(p.missing_branch)
                .set_sample_method(p.sample_enum())
                .set_evaluation_metric(p.metric_enum())
                .set_early_stopping_rounds(p.esr)
                .set_terminate_missing_features(p.terminate.iter().copied().collect());
            s.top_rate = p.top_rate;
            s.other_rate = p.other_rate;
            s.grow_policy = p.grow_enum();
            s.missing_node_treatment = p.treatment_enum();
            s.log_iterations = p.log_iterations;
            s.force_children_to_bound_parent = p.force_bound;
            same_params(&s, p, "all setters")?;
            let mut a = p.build();
            fit(c, &mut a)?;
            fit(c, &mut s)?;
            if let Some(d) = json_diff(&doc_without(&a, &[]), &doc_without(&s, &[]), "model") {
                fail!("setters", "the model fitted with setters differs from the one fitted with the constructor at {}", d);
            }
            Ok(a.trees.iter().any(|t| t.nodes.len() > 1))
        }
        "defaults" => {
            // the documented defaults, and a default booster behaves like one given them explicitly
            let d = Params {
                logloss: true, iterations: 10, learning_rate: 0.3, max_depth: 5, base_score: 0.5, nbins: 256, parallel: true, init_base: true, ..Params::default()
            };
            let mut b = GradientBooster::default();
            same_params(&b, &d, "default")?;
            let mut q = c.clone();
            q.p = d;
            q.p.missing = f64::NAN;
            q.d.y = q.d.y.iter().map(|y| if *y > 0.5 { 1.0 } else { 0.0 }).collect();
            for e in q.evals.iter_mut() {
                e.y = e.y.iter().map(|y| if *y > 0.5 { 1.0 } else { 0.0 }).collect();
            }
            ensure_two_class(&mut q.d);
            let mut a = q.p.build();
            fit(&q, &mut a)?;
            fit(&q, &mut b)?;
            if let Some(x) = json_diff(&doc_without(&a, &[]), &doc_without(&b, &[]), "model") {
                fail!("defaults", "a default booster fits a different model than explicit default parameters: {}", x);
            }
            Ok(a.trees.iter().any(|t| t.nodes.len() > 1))
        }
        _ => {
            let mut a = p.build();
            fit(c, &mut a)?;
            let full = doc_without(&a, &[]);
            let opts = optional();
            let (k, v) = &opts[c.extra["drop"].as_u64().unwrap_or(0) as usize % opts.len()];
            let mut txt = full.clone();
            if txt.as_object_mut().unwrap().remove(*k).is_none() {
                fail!("optional", "the dump has no {}", k);
            }
            let b = GradientBooster::from_json(&txt.to_string()).map_err(|e| format!("optional: a model stored without {} does not load: {}", k, e))?;
            let mut want = full;
            want[*k] = v.clone();
            if let Some(d) = json_diff(&want, &doc_without(&b, &[]), "model") {
                fail!("optional", "loading a model stored without {}: {}", k, d);
            }
            let d = c.probe_data();
            if !bits_eq(&a.predict(&d.matrix(), false), &b.predict(&d.matrix(), false)) {
                fail!("optional", "loading a model stored without {} changes predictions", k);
            }
            ctx.label(&format!("optional {}", k));
            Ok(true)
        }
    }
}

fn main() {
    run(Spec {
        id: "C26",
        rule: "A case is a full random parameter assignment given to the constructor or, one by one in random order, to the setters and fields; each public field and each entry of the dump must be the given value and nothing else may change, fitting must not alter parameters (except an initialised base score), setter-built and constructor-built boosters must fit the same model, defaults must be the documented ones, and stored models lacking an optional parameter must load with its default. Every other case is one of C05 to C08, C10, C11, C16, C18 or C19 (with parameter values drawn apart), whose reference computation reads the parameters from the case and decides that training used them. The Python part does the same through keywords, names and dictionaries. Non-trivial: the fitted model has a split.",
        assumptions: &["the number of threads and the logging interval have no effect on the model"],
        gen,
        check,
        quick: 45000,
        thorough: 900000,
        valid,
    })
}
