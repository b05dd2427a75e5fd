//! C29: the public numeric and partitioning helpers compute what they document.
use vh::*;

const KINDS: [&str; 10] = ["percentiles", "map_bin", "pivot", "pivot3", "sum", "weight", "bounds", "scalar", "text", "validate"];

fn gen(r: &mut Rng, i: usize) -> Case {
    let kind = *r.pick(&KINDS);
    let mut c = Case { kind: kind.into(), ..Case::default() };
    let n = if i % 400 == 9 {
        r.us(300, 5000)
    } else if r.chance(0.1) {
        r.us(14, 120)
    } else {
        r.us(1, 14)
    };
    let mut d = Data { rows: n, cols: 1, x: vec![0.0; n], y: vec![0.0; n], w: vec![1.0; n] };
    match kind {
        "percentiles" => {
            let vk = r.below(3);
            d.x = (0..n).map(|_| match vk { 0 => r.int(-3, 3) as f64, 1 => r.normal() * 10.0, _ => (r.normal() * 4.0).exp() }).collect();
            let wk = r.below(4);
            d.w = (0..n).map(|_| match wk { 0 => 1.0, 1 => r.int(0, 3) as f64, 2 => r.f(0.01, 4.0), _ => (r.normal() * 3.0).exp() }).collect();
            if d.w.iter().all(|v| *v == 0.0) {
                d.w[0] = 1.0;
            }
            let k = r.us(1, 12);
            let mut p: Vec<f64> = match r.below(3) {
                0 => (0..k).map(|q| q as f64 / k as f64).collect(),
                1 => (0..k).map(|_| r.unit()).collect(),
                _ => (0..k).map(|_| r.int(0, 10) as f64 / 10.0).collect(),
            };
            p.sort_by(|a, b| a.partial_cmp(b).unwrap());
            c.nums.insert("p".into(), p);
        }
        "map_bin" => {
            let vk = r.below(4);
            let m = if i % 3000 == 11 { r.us(65000, 66500) } else { n };
            d = Data { rows: m, cols: 1, x: vec![], y: vec![0.0; m], w: vec![1.0; m] };
            d.x = (0..m).map(|q| match vk { 0 => q as f64, 1 => r.normal() * 10.0, 2 => r.int(-5, 5) as f64, _ => *r.pick(&[-1e300, -1.0, 0.0, 1e-300, 1.0, f64::MAX, f64::INFINITY]) }).collect();
            d.x.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut q: Vec<f64> = (0..12).map(|_| { let v = *r.pick(&d.x); match r.below(4) { 0 => v, 1 => v + 0.5, 2 => f64::from_bits(v.to_bits() ^ 1), _ => v - 0.5 } }).collect();
            q.extend([f64::NAN, f64::NEG_INFINITY, f64::INFINITY, 0.0, -0.0]);
            c.nums.insert("q".into(), q);
            c.setn("missing", if r.chance(0.5) { f64::NAN } else { *r.pick(&d.x) });
        }
        "pivot" | "pivot3" => {
            let k = *r.pick(&[2i64, 3, 5, 300, 65535]);
            let pm = *r.pick(&[0.0, 0.2, 0.8]);
            d.x = (0..n).map(|_| if r.chance(pm) { 0.0 } else { r.int(1, k) as f64 }).collect();
            let pk = *r.pick(&[1.0, 0.5]);
            d.y = (0..n).map(|_| if r.chance(pk) { r.unit() } else { -1.0 }).collect();
            if r.chance(0.3) {
                d.x.iter_mut().for_each(|v| if *v > 0.0 { *v = *r.pick(&[1, k - 1, k]) as f64 });
            }
            c.setn("split", if r.chance(0.3) { *r.pick(&[1, k - 1, k]) } else { r.int(1, k) } as f64);
            c.setn("right", r.below(2) as f64);
        }
        "sum" => {
            let vk = r.below(4);
            let m = match r.below(5) { 0 => 15 + r.below(3), 1 => 16 * r.us(1, 5) + r.below(3), 2 => r.below(3), _ => n };
            d = Data { rows: m, cols: 1, x: vec![], y: vec![0.0; m], w: vec![1.0; m] };
            d.x = (0..m).map(|_| match vk { 0 => r.int(-50, 50) as f64, 1 => r.normal(), 2 => (r.normal() * 6.0).exp(), _ => r.int(0, 1) as f64 * 1e7 + r.int(-9, 9) as f64 }).collect();
        }
        _ => {
            let big = r.below(3);
            d.x = (0..n).map(|_| match big { 0 => r.int(-4, 4) as f64 / 2.0, 1 => r.normal() * 10.0, _ => *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e-8, 1e8, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) }).collect();
            c.nums.insert("s".into(), (0..8).map(|_| match r.below(3) { 0 => 0.0, 1 => r.int(0, 4) as f64 / 2.0, _ => (r.normal() * 3.0).exp() }).collect());
            c.nums.insert("g".into(), (0..6).map(|_| match r.below(3) { 0 => r.int(-4, 4) as f64 / 2.0, 1 => r.normal(), _ => r.normal() * 100.0 }).collect());
            c.setn("prec", r.int(-2, 6) as f64);
            c.setn("missing", *r.pick(&[f64::NAN, 0.0, 1.0, -1.0]));
        }
    }
    c.d = d;
    c.extra = serde_json::json!({});
    c
}

#[cfg(feature = "internals")]
fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    use forust_ml::constraints::Constraint;
    use forust_ml::utils::*;
    use std::cmp::Ordering;
    ctx.label(&c.kind);
    let d = &c.d;
    let n = d.rows;
    let empty = vec![];
    let nums = |k: &str| c.nums.get(k).unwrap_or(&empty);
    match c.kind.as_str() {
        "percentiles" => {
            let p = nums("p");
            let got = percentiles(&d.x, &d.w, p);
            let mut pairs: Vec<(f64, f64)> = d.x.iter().copied().zip(d.w.iter().copied()).collect();
            pairs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let total: f64 = d.w.iter().sum();
            let at = |lv: f64| {
                let mut s = 0.0;
                for (v, w) in &pairs {
                    s += w;
                    if s / total >= lv {
                        return *v;
                    }
                }
                pairs[n - 1].0
            };
            let eps = 1e-12 * (n as f64 + 10.0);
            if got.len() != p.len() {
                fail!("percentile count", "{} values for {:?} (v {:?} w {:?})", got.len(), p, d.x, d.w);
            }
            for (g, q) in got.iter().zip(p) {
                let (lo, hi) = (at(q - eps), if *q == 0.0 { pairs[0].0 } else { at(q + eps) });
                let lo = if *q == 0.0 { pairs[0].0 } else { lo };
                if !(lo <= *g && *g <= hi) || !d.x.contains(g) {
                    fail!("percentile", "{} at {} instead of {} (v {:?} w {:?})", g, q, lo, d.x, d.w);
                }
            }
            let f = |v: &[f64]| -> Vec<f32> { v.iter().map(|e| *e as f32).collect() };
            let g32 = percentiles(&f(&d.x), &vec![1.0f32; n], &[0.0f32]);
            if g32 != vec![d.x.iter().fold(f32::INFINITY, |a, b| a.min(*b as f32))] {
                fail!("percentile", "single precision minimum is {:?} of {:?}", g32, d.x);
            }
            Ok(n > 1)
        }
        "map_bin" => {
            let miss = c.num("missing");
            for q in nums("q") {
                let want = if q.is_nan() || *q == miss { 0 } else { d.x.iter().filter(|x| **x <= *q).count() };
                let got = map_bin(&d.x, q, &miss);
                if got != u16::try_from(want).ok() {
                    fail!("map_bin", "{} maps to {:?} instead of {} ({} cuts, missing {})", q, got, want, n, miss);
                }
            }
            if n > 65535 {
                ctx.label("more cuts than bins");
            }
            Ok(n > 1)
        }
        "pivot" | "pivot3" => {
            let feature: Vec<u16> = d.x.iter().map(|v| *v as u16).collect();
            let mut index: Vec<usize> = (0..n).filter(|i| d.y[*i] >= 0.0).collect();
            index.sort_by(|a, b| d.y[*a].partial_cmp(&d.y[*b]).unwrap());
            let split = c.num("split") as u16;
            let right = c.num("right") == 1.0;
            let two = c.kind == "pivot";
            let is_left = |i: &usize| if feature[*i] == 0 { two && !right } else { feature[*i] < split };
            let nl = index.iter().filter(|i| is_left(i)).count();
            let nm = index.iter().filter(|i| !two && feature[**i] == 0).count();
            // a split that sends something to either side; nothing else is documented to work
            if nl + nm == index.len() {
                return Ok(false);
            }
            let before = index.clone();
            let (ms, sp) = if two { (0, pivot_on_split(&mut index, &feature, split, right)) } else { pivot_on_split_exclude_missing(&mut index, &feature, split) };
            let mut s = index.clone();
            s.sort();
            let mut b = before.clone();
            b.sort();
            if s != b {
                fail!("pivot lost records", "{:?} from {:?}", index, before);
            }
            if ms != nm || sp != nm + nl {
                fail!("pivot position", "({}, {}) instead of ({}, {}): bins {:?} order {:?} split {} missing_right {}", ms, sp, nm, nm + nl, feature, before, split, right);
            }
            let ok = index[..ms].iter().all(|i| feature[*i] == 0) && index[ms..sp].iter().all(is_left) && index[sp..].iter().all(|i| !is_left(i) && (two || feature[*i] != 0));
            if !ok {
                fail!("pivot sides", "{:?} at ({}, {}): bins {:?} split {} missing_right {}", index, ms, sp, feature, split, right);
            }
            for v in [0u16, 1, 2, split, split.saturating_add(1), 65535] {
                let want = if v == 0 { if right { Ordering::Less } else { Ordering::Greater } } else { split.cmp(&v) };
                if missing_compare(&split, v, right) != want {
                    fail!("missing_compare", "split {} against {} missing_right {}", split, v, right);
                }
            }
            Ok(index.len() > 2)
        }
        "sum" => {
            let want: f64 = {
                // compensated
                let (mut s, mut e) = (0.0f64, 0.0f64);
                for v in &d.x {
                    let t = s + v;
                    e += if s.abs() >= v.abs() { (s - t) + v } else { (v - t) + s };
                    s = t;
                }
                s + e
            };
            let abs: f64 = d.x.iter().map(|v| v.abs()).sum();
            let tol = 1.2e-16 * (n as f64 + 4.0) * abs;
            for (nm, g) in [("fast_sum", fast_sum(&d.x)), ("naive_sum", naive_sum(&d.x))] {
                if !close(g, want, tol) {
                    fail!("sum", "{} of {} values is {} instead of {}", nm, n, g, want);
                }
            }
            let f: Vec<f32> = d.x.iter().map(|v| *v as f32).collect();
            let w32: f64 = f.iter().map(|v| *v as f64).sum();
            let g = fast_f64_sum(&f) as f64;
            if !close(g, w32, 6e-8 * w32.abs() + 2.0 * tol) {
                fail!("sum", "fast_f64_sum of {} values is {} instead of {}", n, g, w32);
            }
            for (nm, g) in [("fast_sum", fast_sum(&f)), ("naive_sum", naive_sum(&f))] {
                if !close(g as f64, w32, 6e-8 * (n as f64 + 4.0) * abs) {
                    fail!("sum", "single precision {} of {} values is {} instead of {}", nm, n, g, w32);
                }
            }
            Ok(n > 1)
        }
        "weight" => {
            let (s, g) = (nums("s"), nums("g"));
            let (l1, l2, mds, h) = (s[0] as f32, s[1] as f32, s[2] as f32, s[3] as f32 + 0.01);
            let gr = g[0] as f32;
            let soft = if gr.abs() <= l1 { 0.0 } else { (gr.abs() as f64 - l1 as f64) * (gr as f64).signum() };
            let got = l1_regularization(&gr, &l1) as f64;
            if !close(got, soft, 1e-6 * gr.abs() as f64) {
                fail!("l1", "soft threshold of {} by {} is {} instead of {}", gr, l1, got, soft);
            }
            let raw = -soft / (h as f64 + l2 as f64);
            let cap = if mds != 0.0 && raw.abs() > mds as f64 { (mds as f64).copysign(raw) } else { raw };
            let tol = 1e-6 * (gr.abs() as f64 / (h as f64 + l2 as f64)) + 1e-30;
            let w = weight(&l1, &l2, &mds, gr, h);
            if !close(w as f64, cap, tol) {
                fail!("weight", "g {} h {} l1 {} l2 {} max_delta_step {}: {} instead of {}", gr, h, l1, l2, mds, w, cap);
            }
            let (lo, hi) = ((g[1].min(g[2])) as f32, (g[1].max(g[2])) as f32);
            let cw = constrained_weight(&l1, &l2, &mds, gr, h, lo, hi);
            if cw != w.min(hi).max(lo) {
                fail!("constrained weight", "{} into [{}, {}] is {}", w, lo, hi, cw);
            }
            let ga = gain(&l2, gr, h) as f64;
            let wa = (gr as f64) * (gr as f64) / (h as f64 + l2 as f64);
            if !close(ga, wa, 1e-6 * wa) {
                fail!("gain", "g {} h {} l2 {}: {} instead of {}", gr, h, l2, ga, wa);
            }
            let ww = g[3] as f32;
            let gw = gain_given_weight(&l2, gr, h, ww) as f64;
            let (a, b) = (2.0 * gr as f64 * ww as f64, (h as f64 + l2 as f64) * (ww as f64) * (ww as f64));
            if !close(gw, -(a + b), 1e-6 * (a.abs() + b)) {
                fail!("gain given weight", "g {} h {} l2 {} w {}: {} instead of {}", gr, h, l2, ww, gw, -(a + b));
            }
            Ok(gr != 0.0)
        }
        "bounds" => {
            let g = nums("g");
            let (i, j, v) = (g[0] as f32, g[1] as f32, g[2] as f32);
            if between(i, j, v) != (i.min(j) <= v && v <= i.max(j)) {
                fail!("between", "{} {} {}", i, j, v);
            }
            let (l, r) = bound_to_parent(v, i, j);
            if l.min(r) > v || l.max(r) < v {
                fail!("bound_to_parent", "parent {} children {} {} gives {} {}", v, i, j, l, r);
            }
            let moved = (l != i) as usize + (r != j) as usize;
            let inside = i.min(j) <= v && v <= i.max(j);
            if moved != !inside as usize || (l != i && l != v) || (r != j && r != v) {
                fail!("bound_to_parent", "parent {} children {} {} gives {} {}", v, i, j, l, r);
            }
            // the child closer to the parent moves, so the order of the children stays
            if i != j && (i < j) != (l < r) {
                fail!("bound_to_parent order", "parent {} children {} {} gives {} {}", v, i, j, l, r);
            }
            for (con, keep) in [(None, true), (Some(Constraint::Unconstrained), true), (Some(Constraint::Positive), i < j), (Some(Constraint::Negative), i > j)] {
                let got = cull_gain(v, i, j, con.as_ref());
                if got != if keep { v } else { f32::NEG_INFINITY } {
                    fail!("cull_gain", "{:?}: gain {} weights {} {} gives {}", con, v, i, j, got);
                }
            }
            Ok(i != j)
        }
        "scalar" => {
            let miss = c.num("missing");
            for v in &d.x {
                let r = std::panic::catch_unwind(|| is_missing(v, &miss));
                let want = if miss.is_nan() { Some(v.is_nan()) } else if v.is_nan() { None } else { Some(*v == miss) };
                if r.ok() != want {
                    fail!("is_missing", "{} with missing {}", v, miss);
                }
                if v.is_nan() {
                    continue;
                }
                let p = odds(*v);
                let want = 1.0 / (1.0 + (-v).exp());
                if !(0.0..=1.0).contains(&p) || !close(p, want, 1e-15) || !close(p + odds(-v), 1.0, 1e-15) {
                    fail!("odds", "{} gives {}", v, p);
                }
                if v.is_finite() {
                    let k = c.num("prec") as i32;
                    let got = precision_round(*v, k);
                    let unit = 10f64.powi(-k);
                    let steps = got / unit;
                    if (got - v).abs() > 0.5 * unit + 1e-9 * v.abs() || (steps - steps.round()).abs() > 1e-6 * steps.abs().max(1.0) {
                        fail!("precision_round", "{} to {} places is {}", v, k, got);
                    }
                    if precision_round(got, k) != got && got.abs() < 1e6 {
                        fail!("precision_round", "{} to {} places is not stable at {}", v, k, got);
                    }
                }
            }
            Ok(n > 1)
        }
        "text" => {
            let t = fmt_vec_output(&d.x);
            let got: Vec<&str> = if t.is_empty() { vec![] } else { t.split(", ").collect() };
            if got.len() != n || got.iter().zip(&d.x).any(|(g, v)| !close(g.parse::<f64>().unwrap_or(f64::MIN_POSITIVE), *v, 0.5001e-4)) {
                fail!("fmt_vec_output", "{:?} gives {:?}", d.x, t);
            }
            let names: Vec<String> = d.x.iter().map(|v| format!("<{}>", v)).collect();
            let s = items_to_strings(names.iter().map(|v| v.as_str()).collect());
            let mut at = 0;
            for v in &names {
                match s[at..].find(v.as_str()) {
                    Some(k) => at += k + v.len(),
                    None => fail!("items_to_strings", "{:?} lacks {:?}", s, v),
                }
            }
            Ok(n > 1)
        }
        "validate" => {
            let (s, g) = (nums("s"), nums("g"));
            let neg = d.x.iter().any(|v| *v < 0.0);
            let nan = d.x.iter().any(|v| v.is_nan());
            let res = [
                ("validate_not_nan_vec", validate_not_nan_vec(&d.x, "name".into()), !nan),
                ("validate_positive_vec", validate_positive_vec(&d.x, "name".into()), !neg),
                ("validate_positive_not_nan_vec", validate_positive_not_nan_vec(&d.x, "name".into()), !neg && !nan),
            ];
            for (nm, r, ok) in res {
                if r.is_ok() != ok {
                    fail!("validation", "{} of {:?} gives {:?}", nm, d.x, r.map_err(|e| e.to_string()));
                }
                if let Err(e) = r {
                    if !e.to_string().contains("name") {
                        fail!("validation message", "{:?} does not name the input", e.to_string());
                    }
                }
            }
            let (lo, hi) = (g[0].min(g[1]), g[0].max(g[1]));
            for v in d.x.iter().chain([lo, hi, s[0]].iter()) {
                let r = validate_float_parameter(*v, lo, hi, "par");
                if r.is_ok() != (*v >= lo && *v <= hi) {
                    fail!("validation", "{} in [{}, {}] gives {:?}", v, lo, hi, r.map_err(|e| e.to_string()));
                }
                if validate_positive_float_parameter(*v, "par").is_ok() != (*v >= 0.0) || validate_positive_float_parameter(*v as f32, "par").is_ok() != (*v as f32 >= 0.0) {
                    fail!("validation", "positive parameter {}", v);
                }
                if let Err(e) = r {
                    if !e.to_string().contains("par") {
                        fail!("validation message", "{:?} does not name the parameter", e.to_string());
                    }
                }
            }
            Ok(n > 1)
        }
        _ => Ok(false),
    }
}

/// Without the helpers: what they do to training, as far as a model shows it.
#[cfg(not(feature = "internals"))]
fn check(c: &Case, _: &mut Ctx) -> Result<bool, String> {
    let mut k = c.clone();
    if c.d.rows > 3000 || c.d.x.iter().any(|v| !v.is_finite()) {
        return Ok(false);
    }
    k.p.parallel = false;
    k.d.y = (0..c.d.rows).map(|i| (i % 3) as f64).collect();
    k.d.w = vec![1.0; c.d.rows];
    if k.d.rows == 0 {
        return Ok(false);
    }
    let m = RModel::of(&k.fit()).map_err(|e| format!("model: {}", e))?;
    for t in &m.trees {
        for nd in t.nodes.iter().filter(|n| !n.leaf) {
            let (a, b) = (t.nodes[nd.left].h as f64, t.nodes[nd.right].h as f64);
            if a + b != nd.h as f64 {
                fail!("cover", "{} + {} is not {}", a, b, nd.h);
            }
        }
    }
    Ok(true)
}

fn valid(c: &Case) -> bool {
    let n = c.d.rows;
    c.d.x.len() == n
        && match c.kind.as_str() {
            "percentiles" => n > 0 && c.d.w.iter().any(|v| *v > 0.0),
            "map_bin" => c.d.x.windows(2).all(|p| p[0] <= p[1]),
            "pivot" | "pivot3" => c.d.x.iter().all(|v| *v >= 0.0 && v.fract() == 0.0),
            _ => true,
        }
}

fn main() {
    run(Spec {
        id: "C29",
        rule: "A case is one group of helpers (weighted percentiles, bin lookup, two- and three-way partitioning, summation, weights and gains, bounds, scalar functions, text output, validation) with generated arguments: up to 5000 values, bins up to 65535, zero and heavy weights, infinities, NaN, ties. Non-trivial: more than one value, and for the partitions more than two records with some on each side. Distinct by hash of the whole case.",
        assumptions: &["percentiles: sorted levels, positive total weight, no missing values", "partitions: the split sends at least one record to either side (as splits found in training do)", "map_bin: sorted cut points"],
        gen,
        check,
        quick: 1500000,
        thorough: 40000000,
        valid,
    })
}
