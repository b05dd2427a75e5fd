//! C02: determinism and thread-count independence.
use forust_ml::gradientbooster::ContributionsMethod as CM;
use std::sync::OnceLock;
use vh::synth::*;
use vh::*;

fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    P.get_or_init(|| {
        [1usize, 2, 3, 7, 12, 33]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(16 << 20).build().unwrap())
            .collect()
    })
}

fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 90, tail_rows: if i % 25 == 0 { 3000 } else { 500 }, max_cols: if i % 20 == 3 { 50 } else { 8 }, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.p.mono = gen_mono(r, c.d.cols);
    if r.chance(0.5) {
        c.p.sample = 1 + r.below(2) as u8;
        c.p.subsample = *r.pick(&[0.3, 0.5, 0.8]);
        c.p.top_rate = *r.pick(&[0.1, 0.3]);
        c.p.other_rate = *r.pick(&[0.2, 0.5]);
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.4) {
        c.p.colsample = *r.pick(&[0.3, 0.6, 0.9]);
    }
    if r.chance(0.3) {
        let e = gen_eval(r, &c.d, c.p.logloss, &o);
        c.evals = vec![e];
        let s = c.p.missing;
        for v in c.evals[0].x.iter_mut() {
            if v.is_nan() {
                *v = s;
            }
        }
        c.p.esr = if r.chance(0.5) { Some(r.us(1, 3)) } else { None };
    }
    if r.chance(0.2) {
        c.setn("pi", r.below(c.p.iterations + 1) as f64);
    }
    c.setn("pool", r.below(6) as f64);
    if i % 40 == 9 {
        gen_tile(r, &mut c);
    }
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let mut s = c.clone();
    s.p.parallel = false;
    let mut par = c.clone();
    par.p.parallel = true;
    let b = s.fit();
    let want = doc_without(&b, &["parallel"]);
    let b2 = s.fit();
    if let Some(d) = json_diff(&want, &doc_without(&b2, &["parallel"]), "model") {
        fail!("repeat", "two fits of the same problem differ at {}", d);
    }
    // refit of the same object
    let mut b3 = s.p.build();
    s.fit_into(&mut b3)?;
    s.fit_into(&mut b3)?;
    if let Some(d) = json_diff(&want, &doc_without(&b3, &["parallel"]), "model") {
        fail!("repeat", "refitting the same booster differs at {}", d);
    }
    let pool = &pools()[c.num("pool") as usize % 6];
    let bp = pool.install(|| par.fit());
    if let Some(d) = json_diff(&want, &doc_without(&bp, &["parallel"]), "model") {
        fail!("parallel fit", "parallel fit with {} threads differs from serial at {}", pool.current_num_threads(), d);
    }
    let bp2 = pools()[3].install(|| par.fit());
    if let Some(d) = json_diff(&want, &doc_without(&bp2, &["parallel"]), "model") {
        fail!("parallel fit", "parallel fit with 7 threads differs from serial at {}", d);
    }
    let b = model_of(&s);
    // scoring
    let mut rows = c.probes.clone();
    for i in 0..c.d.rows.min(120) {
        rows.push(c.d.row(i));
    }
    let d = Data::from_rows(&rows, c.d.cols);
    let mx = d.matrix();
    let p0 = b.predict(&mx, false);
    let l0 = b.predict_leaf_indices(&mx);
    let methods = || {
        let mut v = vec![("Weight", CM::Weight), ("Average", CM::Average), ("BranchDifference", CM::BranchDifference), ("MidpointDifference", CM::MidpointDifference), ("ModeDifference", CM::ModeDifference)];
        if c.p.logloss {
            v.push(("ProbabilityChange", CM::ProbabilityChange));
        }
        if d.rows <= 150 && c.p.max_depth <= 10 {
            v.push(("Shapley", CM::Shapley));
        }
        v
    };
    let c0: Vec<(&str, Vec<f64>)> = methods().into_iter().map(|(n, m)| (n, b.predict_contributions(&mx, m, false))).collect();
    let res = pool.install(|| -> Result<(), String> {
        let p1 = b.predict(&mx, true);
        if !bits_eq(&p0, &p1) {
            fail!("parallel predict", "parallel predictions differ from serial ones");
        }
        if b.predict_leaf_indices(&mx) != l0 {
            fail!("parallel leaves", "leaf indices differ between thread pools");
        }
        for ((n, want), (_, m)) in c0.iter().zip(methods()) {
            let got = b.predict_contributions(&mx, m, true);
            if !bits_eq(want, &got) {
                fail!("parallel contributions", "{} contributions differ between parallel and serial", n);
            }
        }
        Ok(())
    });
    res?;
    if c.nums.contains_key("tile") && b.trees.len() * c.d.cols < 200 {
        let n = (c.num("tile") as usize).min(12000);
        let (big, ix) = tile(&rows, c.d.cols, n, c.num("tileseed") as u64);
        let mx = big.matrix();
        let k = c.d.cols + 1;
        pool.install(|| -> Result<(), String> {
            let p = b.predict(&mx, true);
            if p.len() != n || (0..n).any(|i| !bits_eq(&p[i..i + 1], &p0[ix[i]..ix[i] + 1])) {
                fail!("large batch", "predictions of {} records differ from those of a small batch", n);
            }
            for par in [true, false] {
                for ((name, want), (_, m)) in c0.iter().zip(methods()) {
                    let got = b.predict_contributions(&mx, m, par);
                    if got.len() != n * k || (0..n).any(|i| !bits_eq(&got[i * k..i * k + k], &want[ix[i] * k..ix[i] * k + k])) {
                        fail!("large batch", "{} contributions of {} records (parallel={}) differ from those of a small batch", name, n, par);
                    }
                }
            }
            Ok(())
        })?;
        ctx.label("batch of a thousand or more records");
    }
    // partial dependence: up to summation order
    for j in 0..c.d.cols.min(2) {
        let v = rows[0][j];
        let a = b.value_partial_dependence(j, v);
        let e = pool.install(|| b.value_partial_dependence(j, v));
        let scale: f64 = b.base_score.abs() + b.trees.iter().map(|t| t.nodes.iter().map(|n| n.weight_value.abs() as f64).fold(0.0, f64::max)).sum::<f64>();
        if !close(a, e, 1e-12 * (scale + 1.0)) {
            fail!("parallel pd", "partial dependence {} and {} on different pools", a, e);
        }
    }
    if c.p.sample != 0 {
        ctx.label("row sampling");
    }
    if c.p.colsample < 1.0 {
        ctx.label("column sampling");
    }
    if c.d.rows > 400 {
        ctx.label("more than 400 rows");
    }
    Ok(b.trees.iter().any(|t| t.nodes.len() > 1))
}

fn main() {
    run(Spec {
        id: "C02",
        rule: "A case is a generated problem (sampling, early stopping, up to 3000 rows) fitted repeatedly: serial twice, refitted in place, and in parallel inside rayon pools of 1, 2, 3, 7, 12 or 33 threads; the dumps must be identical except for the parallel flag, and all scoring calls bitwise identical. Non-trivial: at least one split.",
        assumptions: &["rayon schedules are sampled by varying pool sizes and repeating, not enumerated"],
        gen,
        check,
        quick: 10000,
        thorough: 200000,
        valid: valid_common,
    })
}
