//! C18: gradients, hessians, loss and initial score against the loss definition.
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    if i % 4 == 3 {
        // base score through fit
        let o = Opt { max_rows: 30, tail_rows: 30, max_cols: 3, ..Opt::default() };
        let mut c = gen_case(r, &o);
        c.kind = "fit".into();
        c.p.init_base = r.chance(0.6);
        c.p.iterations = r.below(3);
        c.p.base_score = *r.pick(&[0.5, 0.0, -1.25, 3.0, 1e-3, -7.5, 0.1]);
        if c.p.logloss && c.p.init_base {
            ensure_two_class(&mut c.d);
        }
        if r.chance(0.3) {
            let e = gen_eval(r, &c.d, c.p.logloss, &o);
            if c.p.missing.is_nan() {
                c.evals.push(e);
            }
        }
        return c;
    }
    let mut c = Case { kind: "functions".into(), ..Case::default() };
    c.p.logloss = r.chance(0.6);
    let n = if i % 50 == 0 { r.us(30, 300) } else { r.us(1, 10) };
    let ys = r.below(3);
    let y: Vec<f64> = (0..n)
        .map(|_| {
            if c.p.logloss {
                if ys == 0 {
                    r.int(0, 8) as f64 / 8.0
                } else {
                    r.below(2) as f64
                }
            } else {
                r.normal() * [1.0, 1e3, 1e-3][ys]
            }
        })
        .collect();
    let fk = r.below(4);
    let f: Vec<f64> = (0..n)
        .map(|k| match fk {
            0 => r.normal() * 3.0,
            1 => r.f(-60.0, 60.0),
            2 => *r.pick(&[0.0, -0.0, 36.0, -36.0, 40.0, -40.0, 700.0, -700.0, 745.5, -745.5, 710.0, -710.0, 1e10, -1e10]),
            _ => y[k] + r.normal() * 0.01,
        })
        .collect();
    let wk = r.below(4);
    let mut w: Vec<f64> = (0..n)
        .map(|_| match wk {
            0 => 1.0,
            1 => r.int(0, 3) as f64,
            2 => r.f(0.01, 5.0),
            _ => (r.normal() * 3.0).exp(),
        })
        .collect();
    if w.iter().all(|v| *v == 0.0) {
        w[0] = 1.0;
    }
    c.d = Data { rows: n, cols: 1, x: f, y, w };
    c
}

/// sigma(f) and 1 - sigma(f), both without cancellation
fn sig(f: f64) -> (f64, f64) {
    let e = (-f.abs()).exp();
    let (a, b) = (1.0 / (1.0 + e), e / (1.0 + e));
    if f >= 0.0 {
        (a, b)
    } else {
        (b, a)
    }
}
fn init_ref(logloss: bool, y: &[f64], w: &[f64]) -> f64 {
    let s: f64 = w.iter().sum();
    let t: f64 = (0..y.len()).map(|i| w[i] * y[i]).sum();
    if logloss {
        let u: f64 = (0..y.len()).map(|i| w[i] * (1.0 - y[i])).sum();
        (t / u).ln()
    } else {
        t / s
    }
}
fn total_loss(logloss: bool, y: &[f64], w: &[f64], f: f64) -> f64 {
    (0..y.len()).map(|i| w[i] * if logloss { metrics::bce(y[i], f) } else { (y[i] - f).powi(2) }).sum()
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let (y, w) = (&c.d.y, &c.d.w);
    let ll = c.p.logloss;
    let n = y.len();
    if c.kind == "fit" {
        let b = c.fit();
        let m = RModel::of(&b)?;
        if b.base_score.to_bits() != m.base.to_bits() {
            fail!("dump", "base score {} dumped as {}", b.base_score, m.base);
        }
        if !c.p.init_base {
            if b.base_score.to_bits() != c.p.base_score.to_bits() {
                fail!("explicit", "base score {} was set, {} is used", c.p.base_score, b.base_score);
            }
        } else {
            let want = init_ref(ll, y, w);
            let sc = y.iter().fold(0.0f64, |a, v| a.max(v.abs()));
            if !close(b.base_score, want, 1e-9 * (want.abs() + 1e-2 + if ll { 0.0 } else { sc })) {
                fail!("init", "initial base score {} but the loss is minimised at {}", b.base_score, want);
            }
            let d = 0.02 * (1.0 + want.abs());
            let l0 = total_loss(ll, y, w, b.base_score);
            for q in [b.base_score - d, b.base_score + d] {
                if total_loss(ll, y, w, q) < l0 * (1.0 - 1e-9) - 1e-300 {
                    fail!("minimiser", "total loss at the initial base score {} is {}, at {} only {}", b.base_score, l0, q, total_loss(ll, y, w, q));
                }
            }
        }
        // with no trees everybody gets the base score
        let pd = c.probe_data();
        if c.p.iterations == 0 {
            for p in b.predict(&pd.matrix(), c.p.parallel) {
                if p.to_bits() != b.base_score.to_bits() {
                    fail!("empty", "a model without trees predicts {} instead of the base score {}", p, b.base_score);
                }
            }
        }
        return Ok(c.p.init_base);
    }
    let f = &c.d.x;
    let (g, h) = internals::gradients(&c.p, y, f, w);
    if g.len() != n || h.len() != n {
        fail!("shape", "{} gradients and {} hessians for {} records", g.len(), h.len(), n);
    }
    let loss = internals::loss(&c.p, y, f, w);
    // through training the values pass a division and a product in single precision
    let slack = if internals::PRESENT { 1.0 } else { 10.0 };
    for i in 0..n {
        let (gw, hw, lw, gs, hs);
        if ll {
            let (p, q) = sig(f[i]);
            gw = (p * (1.0 - y[i]) - y[i] * q) * w[i];
            hw = p * q * w[i];
            lw = metrics::bce(y[i], f[i]) * w[i];
            // absolute rounding of p near one is 1.1e-16
            gs = w[i] * 1e-15;
            hs = w[i] * 1e-15;
            if f[i].abs() > 36.0 {
                ctx.label("saturated");
            }
        } else {
            gw = (f[i] - y[i]) * w[i];
            hw = w[i];
            lw = (f[i] - y[i]) * (f[i] - y[i]) * w[i];
            gs = (f[i].abs() + y[i].abs()) * w[i] * 1e-15;
            hs = 0.0;
        }
        let f32tol = |v: f64| slack * v.abs() * 1.3e-7 + 1e-44;
        if !close(g[i] as f64, gw, f32tol(gw) + gs) {
            fail!("gradient", "label {} prediction {} weight {}: gradient {}, derivative of the loss {}", y[i], f[i], w[i], g[i], gw);
        }
        if !close(h[i] as f64, hw, f32tol(hw) + hs) || h[i] < 0.0 {
            fail!("hessian", "label {} prediction {} weight {}: hessian {}, second derivative {}", y[i], f[i], w[i], h[i], hw);
        }
        let Some(loss) = &loss else { continue };
        if !(loss[i].is_finite()) && lw < 1e37 {
            fail!("loss", "label {} prediction {} weight {}: loss {}", y[i], f[i], w[i], loss[i]);
        }
        if lw < 1e37 && !close(loss[i] as f64, lw, lw.abs() * 2e-7 + w[i] * 1e-12 + 1e-44) {
            fail!("loss", "label {} prediction {} weight {}: loss {}, definition {}", y[i], f[i], w[i], loss[i], lw);
        }
    }
    if !internals::PRESENT {
        return check_init(c);
    }
    // linear in the weight: doubling is exact
    let w2: Vec<f64> = w.iter().map(|v| v * 2.0).collect();
    let (g2, h2) = internals::gradients(&c.p, y, f, &w2);
    for i in 0..n {
        let sub = |v: f32| v != 0.0 && v.abs() < 1e-37;
        if (g2[i] != 2.0 * g[i] && !sub(g[i])) || (h2[i] != 2.0 * h[i] && !sub(h[i])) {
            fail!("weight", "doubling the weight {} takes gradient {} to {} and hessian {} to {}", w[i], g[i], g2[i], h[i], h2[i]);
        }
    }
    // independent of the other records
    for i in 0..n.min(3) {
        let (g1, h1) = internals::gradients(&c.p, &y[i..i + 1], &f[i..i + 1], &w[i..i + 1]);
        if g1[0].to_bits() != g[i].to_bits() || h1[0].to_bits() != h[i].to_bits() {
            fail!("record", "gradient of a record depends on the others");
        }
    }
    check_init(c)
}

fn check_init(c: &Case) -> Result<bool, String> {
    let (y, w, ll, n) = (&c.d.y, &c.d.w, c.p.logloss, c.d.y.len());
    // initial score
    let got = internals::init(&c.p, y, w);
    let want = init_ref(ll, y, w);
    let sc = if ll { 0.0 } else { y.iter().fold(0.0f64, |a, v| a.max(v.abs())) };
    let s: f64 = w.iter().sum();
    let u: f64 = (0..n).map(|i| w[i] * (1.0 - y[i])).sum();
    // ntot - ytot cancels when nearly everything is positive
    let cond = if ll && u > 0.0 { 1e-15 * n as f64 * s / u } else { 0.0 };
    if !close(got, want, 1e-9 * (want.abs() + 1e-2 + sc) + cond) && cond < 1e-3 {
        fail!("init", "initial score {} for labels {:?} weights {:?}, minimiser {}", got, y, w, want);
    }
    Ok(true)
}

pub fn valid(c: &Case) -> bool {
    let n = c.d.rows;
    n > 0 && c.d.w.iter().any(|v| *v > 0.0) && (!c.p.logloss || c.d.y.iter().all(|v| (0.0..=1.0).contains(v))) && (c.kind != "fit" || valid_common(c))
}

fn main() {
    run(Spec {
        id: "C18",
        rule: "A case is either a vector of labels, raw predictions (ordinary, saturated, extreme) and weights for one objective, or a small fit whose base score is examined. Non-trivial: function cases, and fits with an initialised base score. Distinct by hash of the whole case.",
        assumptions: &["labels in [0,1] for log loss, finite predictions, at least one positive weight", "single-precision outputs compared to 1.3e-7 relative plus 1e-15 of the weight"],
        gen,
        check,
        quick: 900000,
        thorough: 18000000,
        valid,
    })
}
