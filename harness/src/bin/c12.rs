//! C12: contributions add up to the prediction; unused features get exactly zero; batch independence.
use vh::contrib::*;
use vh::synth::*;
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    if r.chance(0.4) {
        let mut c = gen_synth(r, 6, 6, 5);
        if r.chance(0.2) {
            let s = *r.pick(&[-9.0, 7.0, 1.25]);
            use_sentinel(&mut c, s);
        }
        return c;
    }
    let o = Opt { max_rows: 60, tail_rows: if i % 40 == 0 { 2000 } else { 300 }, ..Opt::default() };
    let mut c = gen_case(r, &o);
    if r.chance(0.4) {
        c.p.logloss = true;
        for v in c.d.y.iter_mut() {
            *v = if *v > 0.0 { 1.0 } else { 0.0 };
        }
        c.p.init_base = false;
        c.p.l2 = c.p.l2.max(0.25);
        c.p.min_leaf_weight = c.p.min_leaf_weight.min(0.5);
    }
    c.p.mono = gen_mono(r, c.d.cols);
    if r.chance(0.15) {
        c.p.sample = 1 + r.below(2) as u8;
        c.p.subsample = *r.pick(&[0.5, 0.8]);
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.01) {
        c.p.iterations = 0;
    }
    if r.chance(0.3) {
        c.setn("pi", r.below(c.p.iterations + 1) as f64);
    }
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = model_of(c);
    let m = RModel::of(&b)?;
    if !m.covers_usable() {
        ctx.label("skipped: a split without cover, or not shared out by its children");
        return Ok(false);
    }
    let mut rows = c.probes.clone();
    if c.kind != "synthetic" {
        for i in 0..c.d.rows.min(6) {
            rows.push(c.d.row(i));
        }
    }
    let cols = c.d.cols;
    let d = Data::from_rows(&rows, cols);
    let mx = d.matrix();
    let pred = b.predict(&mx, false);
    let mut used = vec![false; cols];
    for t in m.used() {
        for f in features(t) {
            used[f] = true;
        }
    }
    let sc = scale(&m);
    let rev: Vec<Vec<f64>> = rows.iter().rev().cloned().collect();
    let dr = Data::from_rows(&rev, cols);
    for mi in 0..7 {
        if mi == 5 && !c.p.logloss {
            continue;
        }
        let name = METHODS[mi];
        let got = b.predict_contributions(&mx, method(mi), false);
        if got.len() != rows.len() * (cols + 1) {
            fail!("shape", "{}: {} contributions for {} records and {} features", name, got.len(), rows.len(), cols);
        }
        let par = b.predict_contributions(&mx, method(mi), true);
        if !bits_eq(&got, &par) {
            fail!("parallel", "{}: contributions differ between parallel and serial", name);
        }
        let back = b.predict_contributions(&dr.matrix(), method(mi), c.p.parallel);
        for i in 0..rows.len() {
            let k = rows.len() - 1 - i;
            if !bits_eq(&got[i * (cols + 1)..(i + 1) * (cols + 1)], &back[k * (cols + 1)..(k + 1) * (cols + 1)]) {
                fail!("batch", "{}: contributions of record {:?} depend on the batch", name, rows[i]);
            }
        }
        let one = b.predict_contributions(&Data::from_rows(&rows[..1], cols).matrix(), method(mi), false);
        if !bits_eq(&one, &got[..cols + 1]) {
            fail!("batch", "{}: contributions of record {:?} differ alone and in a batch", name, rows[0]);
        }
        for (i, row) in rows.iter().enumerate() {
            let g = &got[i * (cols + 1)..(i + 1) * (cols + 1)];
            for j in 0..cols {
                if !used[j] && g[j] != 0.0 {
                    fail!("unused", "{}: feature {} is used by no tree but contributes {} for {:?}", name, j, g[j], row);
                }
            }
            let (want, tol) = match mi {
                0 | 1 => (pred[i], 1e-9 * (sc + 1e-12)),
                5 => (sigmoid(pred[i]), 1e-9),
                6 => (pred[i], 1e-5 * (sc + 1e-12)),
                _ => continue,
            };
            let s: f64 = g.iter().sum();
            ctx.ratio(name, (s - want).abs() / tol);
            if !close(s, want, tol) {
                fail!("sum", "{}: contributions {:?} of record {:?} sum to {}, expected {}", name, g, row, s, want);
            }
        }
    }
    let splits: usize = m.used().iter().map(|t| t.nodes.iter().filter(|n| !n.leaf).count()).sum();
    if splits > 0 && used.iter().any(|u| !u) {
        ctx.label("some feature unused");
    }
    if m.used().len() < m.trees.len() {
        ctx.label("truncated prediction_iteration");
    }
    if m.used().iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.ternary())) {
        ctx.label("missing-branch split");
    }
    let rep = m.used().iter().any(|t| rows.iter().any(|r| {
        let mut f: Vec<usize> = t.path(r, m.missing).iter().filter(|n| !t.nodes[**n].leaf).map(|n| t.nodes[*n].sf).collect();
        let l = f.len();
        f.sort();
        f.dedup();
        f.len() < l
    }));
    if rep {
        ctx.label("feature repeated on a path");
    }
    Ok(splits > 0)
}

fn main() {
    run(Spec {
        id: "C12",
        rule: "A case is a generated training problem (both objectives and tree kinds, any prediction_iteration) or a synthetic random ensemble loaded through JSON, plus scoring records with training, boundary, missing and infinite values; all seven contribution methods are evaluated. Non-trivial: the trees in use contain at least one split. Distinct by hash of the whole case.",
        assumptions: &["Weight/Average/ProbabilityChange tolerance 1e-9 relative to the largest weights, Shapley 1e-5 (computed in single precision by the library)"],
        gen,
        check,
        quick: 60000,
        thorough: 1200000,
        valid: valid_common,
    })
}
