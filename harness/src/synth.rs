//! Synthetic models: random trees injected through the public JSON loader.
use crate::case::*;
use crate::rng::Rng;
use forust_ml::GradientBooster;
use serde_json::{json, Value};

pub struct SynthOpt {
    pub cols: usize,
    pub max_depth: usize,
    pub ternary: bool,
    pub p_split: f64,
    pub wscale: f64,
}

fn f32v(x: f64) -> Value {
    json!((x as f32) as f64)
}

pub fn gen_tree(r: &mut Rng, o: &SynthOpt) -> Value {
    let mut nodes: Vec<Value> = vec![];
    let root_cover = (r.f(1.0, 200.0) as f32) as f64;
    nodes.push(json!(null));
    // (index, depth, cover, splittable)
    let mut stack = vec![(0usize, 0usize, root_cover, true)];
    let vals = [-1.5, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0];
    while let Some((i, depth, cover, can)) = stack.pop() {
        let w = r.normal() * o.wscale;
        let split = can && depth < o.max_depth && cover > 0.0 && (depth == 0 || r.chance(o.p_split));
        if !split {
            nodes[i] = json!({"num": i, "weight_value": f32v(w), "hessian_sum": f32v(cover), "depth": depth, "split_value": 0.0,
                "split_feature": 0, "split_gain": 0.0, "missing_node": 0, "left_child": 0, "right_child": 0, "is_leaf": true});
            continue;
        }
        let sf = r.below(o.cols);
        let sv = *r.pick(&vals);
        let gain = r.f(0.001, 50.0);
        let ma = if o.ternary { *r.pick(&[0.0, 0.0, 0.1, 0.4]) } else { 0.0 };
        let a = if r.chance(0.1) { 0.5 } else { r.f(0.05, 0.95) };
        let cm = ((cover * ma) as f32) as f64;
        let cl = (((cover - cm) * a) as f32) as f64;
        let cr = ((cover - cm - cl) as f32) as f64;
        let base = nodes.len();
        let (m, l, rr);
        if o.ternary {
            m = base;
            l = base + 1;
            rr = base + 2;
            nodes.push(json!(null));
            nodes.push(json!(null));
            nodes.push(json!(null));
            stack.push((m, depth + 1, cm, cm > 0.0 && r.chance(0.5)));
        } else {
            l = base;
            rr = base + 1;
            nodes.push(json!(null));
            nodes.push(json!(null));
            m = if r.chance(0.5) { l } else { rr };
        }
        stack.push((l, depth + 1, cl, true));
        stack.push((rr, depth + 1, cr, true));
        nodes[i] = json!({"num": i, "weight_value": f32v(w), "hessian_sum": f32v(cover), "depth": depth, "split_value": sv,
            "split_feature": sf, "split_gain": f32v(gain), "missing_node": m, "left_child": l, "right_child": rr, "is_leaf": false});
    }
    json!({ "nodes": nodes })
}

/// A model of one long path: more levels and features than random trees have.
pub fn gen_chain(r: &mut Rng) -> Case {
    let mut c = gen_synth(r, 1, 1, 1);
    let ternary = c.p.missing_branch;
    let cols = r.us(7, 11);
    let len = r.us(7, 14);
    let vals = [-1.5, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0];
    let mut nodes: Vec<Value> = vec![json!(null)];
    let leaf = |i: usize, d: usize, w: f64, h: f64| {
        json!({"num": i, "weight_value": f32v(w), "hessian_sum": f32v(h), "depth": d, "split_value": 0.0,
        "split_feature": 0, "split_gain": 0.0, "missing_node": 0, "left_child": 0, "right_child": 0, "is_leaf": true})
    };
    let mut order: Vec<usize> = (0..cols).collect();
    r.shuffle(&mut order);
    let (mut at, mut cover) = (0usize, (r.f(100.0, 1000.0) as f32) as f64);
    for d in 0..len {
        let sf = if d < cols { order[d] } else { r.below(cols) };
        let ma = if ternary { *r.pick(&[0.0, 0.1, 0.2]) } else { 0.0 };
        let cm = ((cover * ma) as f32) as f64;
        let down = r.f(0.5, 0.9);
        let cd = (((cover - cm) * down) as f32) as f64;
        let cx = ((cover - cm - cd) as f32) as f64;
        let base = nodes.len();
        let (m, l, rr) = if ternary { (base, base + 1, base + 2) } else { (base + r.below(2), base, base + 1) };
        let left = r.chance(0.5);
        let (hl, hr) = if left { (cd, cx) } else { (cx, cd) };
        if ternary {
            nodes.push(leaf(m, d + 1, r.normal(), cm));
        }
        nodes.push(leaf(l, d + 1, r.normal(), hl));
        nodes.push(leaf(rr, d + 1, r.normal(), hr));
        nodes[at] = json!({"num": at, "weight_value": f32v(r.normal()), "hessian_sum": f32v(cover), "depth": d, "split_value": *r.pick(&vals),
            "split_feature": sf, "split_gain": f32v(r.f(0.001, 50.0)), "missing_node": m, "left_child": l, "right_child": rr, "is_leaf": false});
        at = if left { l } else { rr };
        cover = cd;
    }
    let pv = [-2.0, -1.25, -0.5, 0.25, 0.75, 1.5, 2.5, 4.0, f64::NAN];
    c.probes = (0..r.us(1, 3)).map(|_| (0..cols).map(|_| *r.pick(&pv)).collect()).collect();
    c.d = Data::from_rows(&[vec![0.0; cols]], cols);
    c.extra = json!({"trees": [{ "nodes": nodes }], "prediction_iteration": null});
    c
}

/// Fill case with a synthetic model (extra.trees) and probes on its value lattice.
pub fn gen_synth(r: &mut Rng, max_cols: usize, max_depth: usize, max_trees: usize) -> Case {
    let cols = r.us(1, max_cols);
    let o = SynthOpt {
        cols,
        max_depth: r.us(1, max_depth),
        ternary: r.chance(0.5),
        p_split: r.f(0.3, 0.9),
        wscale: *r.pick(&[0.1, 1.0, 1.0, 3.0]),
    };
    let nt = r.us(1, max_trees);
    let trees: Vec<Value> = (0..nt).map(|_| gen_tree(r, &o)).collect();
    let mut p = Params { logloss: r.chance(0.6), missing_branch: o.ternary, base_score: r.int(-8, 8) as f64 * 0.25, ..Params::default() };
    p.parallel = r.chance(0.5);
    let vals = [-2.0, -1.5, -1.0, -0.5, 0.0, -0.0, 0.5, 0.75, 1.0, 2.0, 2.5, 3.0, 4.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let np = r.us(1, 8);
    let probes: Vec<Vec<f64>> = (0..np).map(|_| (0..cols).map(|_| *r.pick(&vals)).collect()).collect();
    let pi = if r.chance(0.3) { json!(r.us(0, nt)) } else { Value::Null };
    let mut c = Case { kind: "synthetic".into(), p, probes, ..Case::default() };
    c.d = Data::from_rows(&[vec![0.0; cols]], cols);
    c.extra = json!({"trees": trees, "prediction_iteration": pi});
    c
}

/// Build the booster of a synthetic case through the JSON loader.
pub fn load_synth(c: &Case) -> GradientBooster {
    let b = c.p.build();
    let mut doc: Value = serde_json::from_str(&b.json_dump().unwrap()).unwrap();
    doc["trees"] = c.extra["trees"].clone();
    doc["prediction_iteration"] = c.extra["prediction_iteration"].clone();
    GradientBooster::from_json(&doc.to_string()).expect("synthetic model must load")
}
/// Model of a case: synthetic or trained (with optional prediction_iteration in nums["pi"]).
pub fn model_of(c: &Case) -> GradientBooster {
    if c.kind == "synthetic" {
        load_synth(c)
    } else {
        let mut b = c.fit();
        if let Some(v) = c.nums.get("pi") {
            b.prediction_iteration = Some((v[0] as usize).min(b.trees.len()));
        }
        b
    }
}
