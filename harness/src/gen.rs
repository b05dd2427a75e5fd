//! Generators for datasets, parameters and probes.
use crate::case::*;
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Opt {
    pub max_rows: usize,
    pub tail_rows: usize, // occasional larger size
    pub max_cols: usize,
    pub missing: bool,
    pub nonfinite: bool,
    pub zero_w: bool,
    pub exact: bool, // integer/dyadic squared-loss friendly data
    pub big: u8,     // 0: never, 1: occasionally many rows, trees, bins or levels, 2: or many columns
}
impl Default for Opt {
    fn default() -> Self {
        Opt { max_rows: 60, tail_rows: 800, max_cols: 6, missing: true, nonfinite: true, zero_w: true, exact: false, big: 2 }
    }
}

pub fn gen_rows(r: &mut Rng, o: &Opt) -> usize {
    if o.tail_rows >= 1000 && o.tail_rows > o.max_rows && r.chance(0.4) {
        return r.us(o.max_rows, o.tail_rows);
    }
    match r.below(20) {
        0 => r.us(1, 3),
        1..=3 => r.us(2, 12.min(o.max_rows)),
        4..=17 => r.us(4.min(o.max_rows), o.max_rows),
        _ => {
            if o.tail_rows > o.max_rows {
                r.us(o.max_rows, o.tail_rows)
            } else {
                r.us(2, o.max_rows)
            }
        }
    }
}

pub fn gen_col(r: &mut Rng, n: usize, o: &Opt) -> Vec<f64> {
    let kind = r.below(if o.nonfinite { 15 } else { 13 });
    let mut v: Vec<f64> = match kind {
        0 | 1 => (0..n).map(|_| r.normal()).collect(),
        2 => (0..n).map(|_| r.f(-100.0, 100.0)).collect(),
        3 | 4 => {
            let k = r.us(2, 8) as i64;
            (0..n).map(|_| r.int(0, k - 1) as f64).collect()
        }
        5 => (0..n).map(|_| r.below(2) as f64).collect(),
        6 => {
            if r.chance(0.5) {
                vec![r.int(-3, 3) as f64; n]
            } else {
                (0..n).map(|i| i as f64).collect()
            }
        }
        7 => (0..n).map(|_| (r.normal() * 30.0).exp() * if r.chance(0.5) { -1.0 } else { 1.0 }).collect(),
        8 => {
            // adjacent floats
            let b = r.normal();
            (0..n)
                .map(|_| {
                    let k = r.int(-3, 3);
                    f64::from_bits((b.to_bits() as i64 + k) as u64)
                })
                .collect()
        }
        9 => {
            // few heavy values plus unique tail
            let a = r.normal();
            let p = r.f(0.2, 0.95);
            (0..n).map(|_| if r.chance(p) { a } else { r.normal() * 5.0 }).collect()
        }
        10 => {
            let mut v: Vec<f64> = (0..n).map(|_| r.int(-50, 50) as f64 * 0.25).collect();
            if r.chance(0.5) {
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            } else {
                v.sort_by(|a, b| b.partial_cmp(a).unwrap());
            }
            v
        }
        11 => (0..n).map(|_| *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5])).collect(),
        12 => (0..n).map(|_| r.int(-4, 4) as f64 * 1e15 + r.int(0, 3) as f64).collect(),
        13 => (0..n)
            .map(|_| match r.below(12) {
                0 => f64::INFINITY,
                1 => f64::NEG_INFINITY,
                2 => f64::MAX,
                3 => f64::MIN,
                4 => f64::MIN_POSITIVE,
                _ => r.int(-3, 3) as f64,
            })
            .collect(),
        _ => (0..n)
            .map(|_| match r.below(6) {
                0 => f64::INFINITY,
                1 => f64::NEG_INFINITY,
                _ => r.normal(),
            })
            .collect(),
    };
    if o.missing {
        if n > 0 && r.chance(if n > 500 { 0.2 } else { 0.08 }) {
            // one or two missing values in the whole column, or one or two present
            let all = r.chance(0.25);
            let mut k: Vec<usize> = (0..r.us(1, 2)).map(|_| r.below(n)).collect();
            if all {
                k = (0..n).filter(|i| !k.contains(i)).collect();
            }
            k.iter().for_each(|i| v[*i] = f64::NAN);
            return v;
        }
        let p = *r.pick(&[0.0, 0.0, 0.0, 0.0, 0.1, 0.1, 0.1, 0.3, 0.6, 0.95, 1.0]);
        let p = if p == 1.0 && r.chance(0.6) { 0.2 } else { p };
        if p > 0.0 {
            for e in v.iter_mut() {
                if r.chance(p) {
                    *e = f64::NAN;
                }
            }
        }
    }
    v
}

pub fn gen_weights(r: &mut Rng, n: usize, o: &Opt) -> Vec<f64> {
    if o.exact {
        return match r.below(3) {
            0 => vec![1.0; n],
            _ => (0..n)
                .map(|_| if o.zero_w && r.chance(0.1) { 0.0 } else { r.int(1, 4) as f64 })
                .collect(),
        };
    }
    match r.below(8) {
        0..=3 => vec![1.0; n],
        4 => (0..n).map(|_| r.int(1, 5) as f64).collect(),
        5 => (0..n).map(|_| r.f(0.01, 3.0)).collect(),
        6 => (0..n).map(|_| if o.zero_w && r.chance(0.2) { 0.0 } else { r.f(0.1, 2.0) }).collect(),
        _ => (0..n).map(|_| (r.normal() * 2.0).exp()).collect(),
    }
}

fn signal(r: &mut Rng, d: &Data) -> Vec<f64> {
    // additive + interaction signal over ranks of a few features, missing has its own effect
    let n = d.rows;
    let mut s = vec![0.0; n];
    let k = r.us(1, 3);
    for _ in 0..k {
        let j = r.below(d.cols);
        let a = r.normal() * 2.0;
        let m = r.normal() * 2.0;
        let mut vals: Vec<f64> = d.col(j).iter().copied().filter(|v| !v.is_nan()).collect();
        vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let t = if vals.is_empty() { 0.0 } else { vals[r.below(vals.len())] };
        let shape = r.below(3);
        for i in 0..n {
            let v = d.get(i, j);
            s[i] += if v.is_nan() {
                m
            } else {
                let rank = vals.partition_point(|x| *x < v) as f64 / vals.len().max(1) as f64;
                match shape {
                    0 => {
                        if v < t {
                            a
                        } else {
                            -a
                        }
                    }
                    1 => a * rank,
                    _ => a * (rank * 9.0).sin(),
                }
            };
        }
    }
    s
}

pub fn gen_y(r: &mut Rng, d: &Data, logloss: bool, o: &Opt) -> Vec<f64> {
    let n = d.rows;
    let noise = *r.pick(&[0.0, 0.1, 0.3, 0.3, 1.0, 1.0, 3.0]);
    let s = signal(r, d);
    if logloss {
        match r.below(14) {
            0 => (0..n).map(|_| r.below(2) as f64).collect(),
            1 => (0..n).map(|_| r.int(0, 4) as f64 / 4.0).collect(),
            _ => {
                let mut y: Vec<f64> = (0..n).map(|i| if s[i] + noise * r.normal() > 0.0 { 1.0 } else { 0.0 }).collect();
                // keep both classes present when possible
                if n > 1 && y.iter().all(|v| *v == y[0]) {
                    let i = r.below(n);
                    y[i] = 1.0 - y[i];
                }
                y
            }
        }
    } else if o.exact {
        (0..n).map(|i| (s[i] * 2.0 + noise * r.normal()).round().clamp(-16.0, 16.0)).collect()
    } else {
        match r.below(16) {
            0 => vec![r.int(-5, 5) as f64; n],
            1 | 4 => {
                let sc = *r.pick(&[1e-4, 1e3, 1e5]);
                (0..n).map(|i| sc * (s[i] + noise * r.normal())).collect()
            }
            2 | 5 => {
                let off = *r.pick(&[100.0, -1000.0, 1e6]);
                (0..n).map(|i| off + s[i] + noise * r.normal()).collect()
            }
            3 | 6 => (0..n).map(|i| (s[i] * 3.0).round()).collect(),
            _ => (0..n).map(|i| s[i] + noise * r.normal()).collect(),
        }
    }
}

pub fn gen_data(r: &mut Rng, logloss: bool, o: &Opt) -> Data {
    let n = gen_rows(r, o);
    let cols = if o.max_cols > 2 && r.chance(0.75) { r.us(2, o.max_cols) } else { r.us(1, o.max_cols) };
    let mut x = Vec::with_capacity(n * cols);
    for j in 0..cols {
        if j > 0 && r.chance(0.08) {
            // duplicate of an earlier column (ties between features)
            let k = r.below(j);
            let c: Vec<f64> = x[k * n..(k + 1) * n].to_vec();
            x.extend(c);
        } else {
            x.extend(gen_col(r, n, o));
        }
    }
    let mut d = Data { rows: n, cols, x, y: vec![0.0; n], w: vec![1.0; n] };
    d.y = gen_y(r, &d, logloss, o);
    d.w = gen_weights(r, n, o);
    d
}

/// An evaluation set drawn over the same feature space as `d`.
pub fn gen_eval(r: &mut Rng, d: &Data, logloss: bool, o: &Opt) -> Data {
    let n = r.us(1, 40);
    let rows: Vec<Vec<f64>> = (0..n).map(|_| gen_probe(r, d)).collect();
    let mut e = Data::from_rows(&rows, d.cols);
    e.y = gen_y(r, &e, logloss, o);
    e.w = gen_weights(r, n, o);
    if e.w.iter().all(|v| *v == 0.0) {
        e.w[0] = 1.0;
    }
    e
}

/// A scoring record: mixes training values, values next to them, missing and extreme values.
pub fn gen_probe(r: &mut Rng, d: &Data) -> Vec<f64> {
    let base = r.below(d.rows);
    (0..d.cols)
        .map(|j| {
            let t = d.get(r.below(d.rows), j);
            match r.below(12) {
                0..=3 => d.get(base, j),
                4..=6 => t,
                7 if !t.is_nan() => next_up(t),
                8 if !t.is_nan() => next_down(t),
                9 => r.normal() * 3.0,
                10 => f64::NAN,
                11 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.0, -0.0]),
                _ => t,
            }
        })
        .collect()
}
pub fn next_up(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        return x;
    }
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

/// Choose a sentinel that does not occur in the data, and replace NaN by it everywhere.
pub fn use_sentinel(c: &mut Case, s: f64) {
    c.p.missing = s;
    for e in c.d.x.iter_mut() {
        if e.is_nan() {
            *e = s;
        }
    }
    for ev in c.evals.iter_mut() {
        for e in ev.x.iter_mut() {
            if e.is_nan() {
                *e = s;
            }
        }
    }
    for p in c.probes.iter_mut() {
        for e in p.iter_mut() {
            if e.is_nan() {
                *e = s;
            }
        }
    }
}
pub fn sentinel_free(c: &Case, s: f64) -> bool {
    !c.d.x.iter().any(|v| *v == s)
        && !c.evals.iter().any(|e| e.x.iter().any(|v| *v == s))
        && !c.probes.iter().any(|p| p.iter().any(|v| *v == s))
}

pub fn gen_params(r: &mut Rng) -> Params {
    let mut p = Params { logloss: r.chance(0.5), ..Params::default() };
    let r2 = r.chance(0.5);
    p.iterations = *r.pick(&[1, 1, 2, 3, 4, 6, 10]);
    p.learning_rate = *r.pick(&[1.0, 0.3, 0.1, 0.5, 0.05, 2.0]);
    p.max_depth = *r.pick(&[1, 2, 3, 3, 4, 5, 6, 10, 4, usize::MAX - 1]);
    if r.chance(0.02) {
        p.max_depth = 0;
    }
    p.max_leaves = if r.chance(0.35) { r.us(if r2 { 1 } else { 3 }, 12) } else { usize::MAX };
    p.l1 = *r.pick(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.05, 0.1, 0.5, if r2 { 2.0 } else { 0.0 }]);
    p.l2 = *r.pick(&[1.0, 1.0, 0.0, 0.1, 0.5, 3.5, 20.0]);
    if p.logloss && p.l2 == 0.0 {
        // an unregularised log loss Newton step can diverge; outside the domain
        p.l2 = 0.25;
    }
    p.gamma = *r.pick(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.01, 0.1, 0.3, if r2 { 2.0 } else { 0.0 }]);
    p.max_delta_step = *r.pick(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.05, 0.4, 2.0]);
    p.min_leaf_weight = if p.logloss {
        *r.pick(&[1.0, 0.25, 0.1, 0.1, 0.05, 0.01, 0.01, 0.5])
    } else {
        *r.pick(&[1.0, 1.0, 1.0, 0.1, 0.01, 0.5, 2.0, if r2 { 6.0 } else { 1.0 }])
    };
    if p.l2 > 0.0 && r.chance(0.12) {
        p.min_leaf_weight = *r.pick(&[0.0, 0.0, 1e-6]);
    }
    p.base_score = *r.pick(&[0.5, 0.0, -1.25, 3.0]);
    p.nbins = *r.pick(&[256, 256, 256, 2, 3, 5, 16, 40, 300]);
    p.parallel = r.chance(0.25);
    p.allow_missing_splits = r.chance(0.7);
    p.missing_branch = r.chance(0.45);
    p.lossguide = r.chance(0.4);
    p.init_base = r.chance(if p.max_delta_step > 0.0 || p.l1 > 0.0 { 0.9 } else { 0.5 });
    p.treatment = r.below(4) as u8;
    p.seed = if r.chance(0.15) { r.u64() >> r.below(60) } else { r.below(1000) as u64 };
    if r.chance(0.3) {
        any_values(r, &mut p);
    }
    p
}

/// Some parameters anywhere in their range, instead of one of a few values.
fn any_values(r: &mut Rng, p: &mut Params) {
    let e = |r: &mut Rng, lo: f64, hi: f64| 10f64.powf(r.f(lo, hi)) as f32;
    let k = *r.pick(&[0.15, 0.4]);
    if r.chance(k) {
        p.iterations = r.us(1, 14);
    }
    if r.chance(k) {
        p.learning_rate = e(r, -2.5, 0.3);
    }
    if r.chance(k) {
        p.max_depth = if r.chance(0.2) { *r.pick(&[33, 64, 101, 1000]) } else { r.us(1, 14) };
    }
    if r.chance(k) {
        p.max_leaves = r.us(1, 50);
    }
    if r.chance(k) {
        p.l1 = e(r, -3.0, 0.5);
    }
    if r.chance(k) {
        p.l2 = e(r, -1.5, 2.0);
    }
    if r.chance(k) {
        p.gamma = e(r, -4.0, 0.7);
    }
    if r.chance(k) {
        p.max_delta_step = e(r, -2.0, 1.0);
    }
    if r.chance(k) {
        p.min_leaf_weight = e(r, -2.0, 1.3);
    }
    if r.chance(k) {
        p.base_score = if r.chance(0.2) { *r.pick(&[-20.0, 20.0, 35.0, -7.0]) } else { r.normal() * 3.0 };
    }
    if r.chance(k) {
        p.nbins = r.us(2, 400) as u16;
    }
    if r.chance(k) {
        p.seed = if r.chance(0.3) { *r.pick(&[u64::MAX, 1 << 53, (1 << 53) + 1, 1 << 32, 1 << 63]) } else { r.u64() };
    }
}

pub fn gen_mono(r: &mut Rng, cols: usize) -> Option<Vec<(usize, i8)>> {
    if r.chance(0.7) {
        return None;
    }
    let mut m = vec![];
    for j in 0..cols {
        if r.chance(0.6) {
            m.push((j, *r.pick(&[1i8, -1, 0])));
        }
    }
    Some(m)
}

/// General case: anything the fit accepts, without row/column sampling.
pub fn gen_case(r: &mut Rng, o: &Opt) -> Case {
    let mut p = gen_params(r);
    let mut o = *o;
    if r.chance(0.25) {
        o.exact = true;
    }
    if o.exact {
        p.logloss = false;
        p.base_score = r.int(-4, 4) as f64 * 0.5;
        p.init_base = false;
        if r.chance(0.7) {
            p.max_delta_step = 0.0;
            p.l1 = 0.0;
        }
        p.learning_rate = *r.pick(&[1.0, 0.5, 0.25, 2.0]);
    }
    // 3: always one of the large kinds
    let big = if o.big == 3 {
        Some(r.below(5))
    } else if o.big > 0 && r.chance(0.006) { Some(r.below(if o.big > 1 { 5 } else { 4 })) } else { None };
    match big {
        Some(0) => {
            o.max_rows = r.us(1000, 20000);
            o.tail_rows = 0;
            o.max_cols = 3;
            p.max_depth = p.max_depth.min(6);
        }
        Some(1) => {
            o.max_rows = 40;
            o.tail_rows = 0;
            p.iterations = r.us(60, 300);
            p.max_depth = r.us(1, 2);
            p.learning_rate = *r.pick(&[0.1, 0.03, 0.25]);
        }
        Some(2) => {
            o.max_rows = r.us(1000, 6000);
            o.tail_rows = 0;
            o.max_cols = 2;
            p.nbins = *r.pick(&[257, 300, 1000, 4000, 40000, 65534]);
        }
        Some(3) => {
            o.max_rows = r.us(100, 500);
            o.tail_rows = 0;
            o.max_cols = 4;
            p.max_depth = usize::MAX - 1;
            p.max_leaves = usize::MAX;
            p.gamma = 0.0;
            p.min_leaf_weight = if p.l2 > 0.0 { 0.0 } else { 0.01 };
            p.iterations = p.iterations.min(3);
        }
        Some(_) => {
            o.max_rows = 60;
            o.tail_rows = 0;
            o.max_cols = r.us(20, 300);
        }
        None => {}
    }
    let mut d = gen_data(r, p.logloss, &o);
    if let Some(2) = big {
        // all values different
        let n = d.rows;
        for j in 0..d.cols {
            for i in 0..n {
                if !d.get(i, j).is_nan() {
                    let v = (r.normal() * 7.0).exp() * if r.chance(0.3) { -1.0 } else { 1.0 };
                    d.set(i, j, v);
                }
            }
        }
    }
    if d.w.iter().all(|v| *v == 0.0) {
        d.w[0] = 1.0;
    }
    if !o.exact && r.chance(0.03) {
        // sums beyond the single-precision integers
        let k = *r.pick(&[1e4, 1e6, 3e7]);
        d.w.iter_mut().for_each(|w| *w *= k);
    }
    if p.logloss && p.init_base {
        ensure_two_class(&mut d);
    }
    p.terminate = if p.missing_branch && r.chance(0.3) {
        (0..d.cols).filter(|_| r.chance(0.4)).collect()
    } else {
        vec![]
    };
    let np = r.us(1, 12);
    let probes = (0..np).map(|_| gen_probe(r, &d)).collect();
    let mut c = Case { kind: "fit".into(), p, d, probes, ..Case::default() };
    // any sentinel
    if r.chance(0.3) {
        let s = *r.pick(&[-9999.0, 0.0, -1.0, 1e10, f64::INFINITY, f64::NEG_INFINITY, 7.5]);
        if sentinel_free(&c, s) {
            use_sentinel(&mut c, s);
        }
    }
    c
}

/// With initialised base score and log loss, one weighted class only gives an infinite base score.
pub fn ensure_two_class(d: &mut Data) {
    let n = d.rows;
    let s: f64 = (0..n).map(|i| d.w[i]).sum();
    let t: f64 = (0..n).map(|i| d.w[i] * d.y[i]).sum();
    if !(t > 1e-9 * s && t < (1.0 - 1e-9) * s) {
        for i in 0..n {
            d.y[i] = if i % 2 == 0 { 0.0 } else { 1.0 };
            d.w[i] = 1.0;
        }
        if n == 1 {
            d.y[0] = 0.5;
        }
    }
}

pub fn valid_common(c: &Case) -> bool {
    if c.d.rows == 0 || c.d.cols == 0 || c.d.w.iter().all(|v| *v == 0.0) {
        return false;
    }
    if c.p.logloss {
        if c.d.y.iter().any(|v| *v < 0.0 || *v > 1.0) || c.evals.iter().any(|e| e.y.iter().any(|v| *v < 0.0 || *v > 1.0)) {
            return false;
        }
        if c.p.init_base {
            let s: f64 = c.d.w.iter().sum();
            let t: f64 = c.d.w.iter().zip(&c.d.y).map(|(w, y)| w * y).sum();
            if !(t > 1e-9 * s && t < (1.0 - 1e-9) * s) {
                return false;
            }
        }
    }
    if (c.p.logloss || c.p.sample != 0 || c.p.min_leaf_weight < 0.01) && c.p.l2 == 0.0 {
        return false;
    }
    // sentinel must not meet NaN
    if !c.p.missing.is_nan() {
        if c.d.x.iter().any(|v| v.is_nan())
            || c.evals.iter().any(|e| e.x.iter().any(|v| v.is_nan()))
            || c.probes.iter().any(|p| p.iter().any(|v| v.is_nan()))
        {
            return false;
        }
    }
    true
}
