//! C17: metrics against their definitions, and metamorphic invariances.
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    let n = if i % 2000 == 7 {
        r.us(1000, 20000)
    } else if i % 50 == 0 {
        r.us(30, 400)
    } else {
        r.us(1, 14)
    };
    let mi = r.below(4);
    let mut c = Case { kind: METRICS[mi].into(), ..Case::default() };
    c.setn("metric", mi as f64);
    let yk = r.below(4);
    let y: Vec<f64> = (0..n)
        .map(|_| match mi {
            0 => r.below(2) as f64,
            1 => {
                if yk == 0 {
                    r.int(0, 4) as f64 / 4.0
                } else {
                    r.below(2) as f64
                }
            }
            2 => r.f(0.0, 50.0) * if r.chance(0.2) { 0.0 } else { 1.0 },
            _ => r.normal() * [1.0, 100.0, 1e-3, 1e6][yk],
        })
        .collect();
    let fk = r.below(7);
    let neg = r.below(8);
    let c0 = r.normal();
    let f: Vec<f64> = (0..n)
        .map(|k| {
            let v = match fk {
                0 => r.int(-2, 2) as f64,
                1 => r.normal(),
                2 => r.f(-800.0, 800.0),
                3 => *r.pick(&[-40.0, 40.0, 36.0, -36.0, 37.5, -37.5, 0.0, -0.0, 700.0, -745.5, 1e10, -1e10]),
                4 => c0,
                5 => y[k] + 0.3 * r.normal(),
                _ => f64::from_bits((c0.to_bits() as i64 + r.int(-2, 2)) as u64),
            };
            if mi == 2 {
                match neg {
                    0 => -(v.abs() % 1.0),
                    1 if r.chance(0.1) => -v.abs().min(1e6),
                    _ => v.abs().min(1e6),
                }
            } else {
                v
            }
        })
        .collect();
    let wk = r.below(5);
    let mut w: Vec<f64> = (0..n)
        .map(|_| match wk {
            0 => 1.0,
            1 => r.int(1, 4) as f64,
            2 => r.int(0, 2) as f64,
            3 => r.f(0.01, 5.0),
            _ => (r.normal() * 3.0).exp(),
        })
        .collect();
    if w.iter().all(|v| *v == 0.0) {
        w[0] = 1.0;
    }
    if r.chance(0.12) {
        // the same weights in another unit
        let k = 2f64.powi(r.int(-90, 90) as i32);
        w.iter_mut().for_each(|v| *v *= k);
    }
    c.d = Data { rows: n, cols: 1, x: f, y, w };
    c.setn("perm_seed", r.below(1 << 30) as f64);
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let mi = c.num("metric") as usize;
    let (y, f, w) = (&c.d.y, &c.d.x, &c.d.w);
    let n = y.len();
    let g = |y: &[f64], f: &[f64], w: &[f64]| internals::metric(mi, y, f, w);
    let hist;
    let (f, got) = if internals::PRESENT {
        (f, g(y, f, w))
    } else {
        let (v, p) = internals::metric_by_history(mi, y, f, w);
        hist = p;
        (&hist, v)
    };
    let want = metrics::metric(mi, y, f, w);
    // conditioning: the library may evaluate ln(1-p) from a rounded p
    let amp: f64 = if mi == 1 { 1e-9 } else { 1e-9 };
    let tol = |v: f64| amp * (v.abs() + 1e-3) + if mi == 2 { 1e-9 } else { 0.0 };
    let scale = if mi == 3 {
        (0..n).fold(0.0f64, |a, i| a.max(y[i].abs()).max(f[i].abs())) * 1e-13
    } else {
        0.0
    };
    if !want.is_nan() {
        ctx.ratio(METRICS[mi], (got - want).abs() / (tol(want) + scale));
    }
    if !close(got, want, tol(want) + scale) {
        fail!("definition", "{} is {}, the definition gives {} (y {:?} yhat {:?} w {:?})", METRICS[mi], got, want, y, f, w);
    }
    if !internals::PRESENT {
        return Ok(n > 1 && !want.is_nan());
    }
    let same = |what: &str, v: f64| -> Result<(), String> {
        if close(v, got, tol(got) + scale) {
            Ok(())
        } else {
            Err(format!("{}: {} changes from {} to {} (y {:?} yhat {:?} w {:?})", what, METRICS[mi], got, v, y, f, w))
        }
    };
    let sel = |ix: &[usize], v: &[f64]| -> Vec<f64> { ix.iter().map(|i| v[*i]).collect() };
    // permutation
    let mut ix: Vec<usize> = (0..n).collect();
    let mut pr = Rng::new(c.num("perm_seed") as u64, "perm", 0);
    for i in (1..n).rev() {
        ix.swap(i, pr.below(i + 1));
    }
    same("permutation", g(&sel(&ix, y), &sel(&ix, f), &sel(&ix, w)))?;
    // weight scaling
    let w2: Vec<f64> = w.iter().map(|v| v * 0.375).collect();
    same("weight scaling", g(y, f, &w2))?;
    // zero-weight records
    let keep: Vec<usize> = (0..n).filter(|i| w[*i] != 0.0).collect();
    let undefined = mi == 2 && f.iter().any(|v| *v <= -1.0);
    if keep.len() < n && !undefined {
        ctx.label("zero weights");
        same("zero-weight records", g(&sel(&keep, y), &sel(&keep, f), &sel(&keep, w)))?;
    }
    // integer weights as repetition
    if !undefined && w.iter().all(|v| v.fract() == 0.0 && *v <= 8.0) && w.iter().any(|v| *v > 1.0) {
        ctx.label("integer weights");
        let ix: Vec<usize> = (0..n).flat_map(|i| std::iter::repeat(i).take(w[i] as usize)).collect();
        same("repetition", g(&sel(&ix, y), &sel(&ix, f), &vec![1.0; ix.len()]))?;
    }
    if mi == 0 {
        if n < 500 && (0..n).any(|i| (0..i).any(|j| f[i] == f[j] && y[i] != y[j])) {
            ctx.label("auc: tie between classes");
        }
        if got.is_nan() {
            ctx.label("auc: undefined");
        } else {
            // monotone transformation through ranks
            let mut s: Vec<f64> = f.to_vec();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            s.dedup();
            let rk: Vec<f64> = f.iter().map(|v| s.partition_point(|x| x < v) as f64 * 3.0 - 1.0).collect();
            same("monotone transformation", g(y, &rk, w))?;
            if !(0.0..=1.0 + 1e-12).contains(&got) {
                fail!("range", "AUC is {}", got);
            }
            // swapping the classes mirrors the AUC
            let ny: Vec<f64> = y.iter().map(|v| 1.0 - v).collect();
            let m = 1.0 - g(&ny, f, w);
            same("class swap", m)?;
        }
    }
    if mi == 1 && f.iter().any(|v| v.abs() > 36.0) {
        ctx.label("log loss: saturated prediction");
    }
    Ok(n > 1 && !want.is_nan())
}

fn valid(c: &Case) -> bool {
    let n = c.d.rows;
    n > 0 && c.d.x.len() == n && c.d.w.iter().any(|v| *v > 0.0) && {
        match c.num("metric") as usize {
            0 => c.d.y.iter().all(|v| *v == 0.0 || *v == 1.0),
            1 => c.d.y.iter().all(|v| (0.0..=1.0).contains(v)),
            2 => c.d.y.iter().all(|v| *v >= 0.0),
            _ => true,
        }
    }
}

fn main() {
    run(Spec {
        id: "C17",
        rule: "A case is one metric with label, prediction and weight vectors (1 to 20000 records; ties within and across classes, zero and integer weights, saturated and adjacent predictions). Non-trivial: more than one record and the metric is defined. Distinct by hash of the whole case.",
        assumptions: &["labels 0/1 for AUC, in [0,1] for log loss, labels non-negative for RMSLE (a prediction below -1 makes it undefined), at least one positive weight"],
        gen,
        check,
        quick: 1500000,
        thorough: 30000000,
        valid,
    })
}
