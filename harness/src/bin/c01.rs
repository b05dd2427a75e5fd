//! C01: predictions and leaf indices equal independent routing through the dumped trees.
use vh::synth::*;
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    let mut c = gen_one(r, i);
    if i % 100 == 9 {
        gen_tile(r, &mut c);
    }
    c
}

fn gen_one(r: &mut Rng, i: usize) -> Case {
    if r.chance(0.3) {
        let mut c = gen_synth(r, 8, 7, 6);
        if r.chance(0.3) {
            // scoring with another sentinel
            let s = *r.pick(&[-9.0, 7.0, 1.25]);
            use_sentinel(&mut c, s);
        }
        return c;
    }
    let o = Opt { max_rows: 80, tail_rows: if i % 40 == 0 { 3000 } else { 400 }, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.p.mono = gen_mono(r, c.d.cols);
    c.p.force_bound = c.p.missing_branch && r.chance(0.1);
    if r.chance(0.2) {
        c.p.sample = 1 + r.below(2) as u8;
        c.p.subsample = *r.pick(&[0.5, 0.8]);
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.15) {
        c.p.colsample = *r.pick(&[0.3, 0.6, 0.9]);
    }
    if r.chance(0.01) {
        c.p.iterations = 0;
    }
    if r.chance(0.3) {
        c.setn("pi", r.below(c.p.iterations + 1) as f64);
    }
    for _ in 0..r.below(12) {
        let p = gen_probe(r, &c.d);
        let s = c.p.missing;
        c.probes.push(p.into_iter().map(|v| if v.is_nan() { s } else { v }).collect());
    }
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = model_of(c);
    let m = RModel::of(&b)?;
    if c.kind != "synthetic" && m.base.to_bits() != b.base_score.to_bits() {
        fail!("dump", "base score in dump {} differs from {}", m.base, b.base_score);
    }
    // scoring batch: probes + some training rows + values around every split of the model
    let mut rows = c.probes.clone();
    if c.kind != "synthetic" {
        for i in 0..c.d.rows.min(25) {
            rows.push(c.d.row(i));
        }
    }
    let base_row = rows[0].clone();
    'o: for t in &m.trees {
        for nd in &t.nodes {
            if !nd.leaf {
                for v in [nd.sv, next_up(nd.sv), next_down(nd.sv)] {
                    let mut q = base_row.clone();
                    q[nd.sf] = v;
                    rows.push(q);
                }
                if rows.len() > 160 {
                    break 'o;
                }
            }
        }
    }
    if !m.missing.is_nan() {
        ctx.label("missing value other than NaN");
    }
    let d = Data::from_rows(&rows, c.d.cols);
    let mx = d.matrix();
    let want: Vec<f64> = rows.iter().map(|r| m.predict_row(r)).collect();
    for par in [false, true] {
        let got = b.predict(&mx, par);
        if got.len() != want.len() {
            fail!("shape", "predict returned {} values for {} records", got.len(), want.len());
        }
        for i in 0..want.len() {
            let tol = 1e-12 * (want[i].abs() + m.base.abs() + 1.0);
            if !close(got[i], want[i], tol) {
                fail!("prediction", "record {:?} (parallel={}): predict gives {}, routing the dumped trees gives {}", rows[i], par, got[i], want[i]);
            }
        }
    }
    let leaves = b.predict_leaf_indices(&mx);
    let used = m.used();
    if leaves.len() != used.len() * rows.len() {
        fail!("leaves", "{} leaf indices for {} records x {} trees", leaves.len(), rows.len(), used.len());
    }
    for (t, tree) in used.iter().enumerate() {
        for (i, row) in rows.iter().enumerate() {
            let want = tree.leaf(row, m.missing);
            let got = leaves[t * rows.len() + i];
            if got != tree.nodes[want].num || tree.nodes[want].num != want {
                fail!("leaves", "tree {} record {:?}: leaf index {} but routing reaches node {}", t, row, got, want);
            }
        }
    }
    // record by record and reversed batch: same bits
    let whole = b.predict(&mx, false);
    let rev: Vec<Vec<f64>> = rows.iter().rev().cloned().collect();
    let dr = Data::from_rows(&rev, c.d.cols);
    let pr = b.predict(&dr.matrix(), c.p.parallel);
    for i in 0..rows.len() {
        if !bits_eq(&[pr[rows.len() - 1 - i]], &[whole[i]]) {
            fail!("batch", "record {:?} predicted {} in one batch order and {} in the reverse", rows[i], whole[i], pr[rows.len() - 1 - i]);
        }
    }
    for i in (0..rows.len()).step_by(1 + rows.len() / 6) {
        let d1 = Data::from_rows(&rows[i..i + 1], c.d.cols);
        let p1 = b.predict(&d1.matrix(), false);
        if !bits_eq(&p1, &whole[i..i + 1]) {
            fail!("batch", "record {:?} predicted {} alone and {} in a batch", rows[i], p1[0], whole[i]);
        }
    }
    // a batch of many records, nearly all the same
    if c.nums.contains_key("tile") {
        let n = c.num("tile") as usize;
        let (big, ix) = tile(&rows, c.d.cols, n, c.num("tileseed") as u64);
        let mx = big.matrix();
        for par in [false, true] {
            let p = b.predict(&mx, par);
            if p.len() != n {
                fail!("shape", "predict returned {} values for {} records", p.len(), n);
            }
            if let Some(k) = (0..n).find(|k| !bits_eq(&p[*k..*k + 1], &whole[ix[*k]..ix[*k] + 1])) {
                fail!("batch", "record {:?} (position {} of {}, parallel={}) predicted {}, but {} in a small batch", rows[ix[k]], k, n, par, p[k], whole[ix[k]]);
            }
        }
        let l = b.predict_leaf_indices(&mx);
        if l.len() != used.len() * n || (0..l.len()).any(|k| l[k] != leaves[k / n * rows.len() + ix[k % n]]) {
            fail!("leaves", "leaf indices of a batch of {} records differ from those of a small batch", n);
        }
        ctx.label("batch of a thousand or more records");
    }
    // classification
    let splits: usize = used.iter().map(|t| t.nodes.iter().filter(|n| !n.leaf).count()).sum();
    let miss = used.iter().any(|t| {
        rows.iter().any(|r| t.path(r, m.missing).iter().any(|n| !t.nodes[*n].leaf && is_missing(r[t.nodes[*n].sf], m.missing)))
    });
    if miss {
        ctx.label("missing value routed");
    }
    if used.len() < m.trees.len() {
        ctx.label("truncated prediction_iteration");
    }
    if used.iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.ternary())) {
        ctx.label("missing-branch split");
    }
    if splits > 20 {
        ctx.label("more than 20 splits");
    }
    Ok(splits > 0)
}

fn main() {
    run(Spec {
        id: "C01",
        rule: "A case is a generated training problem (or a synthetic random tree ensemble loaded through JSON) plus scoring records placed on, next to and far from every split value, with missing, infinite and training values; every hundredth case also scores 1000 to 34000 records at once. Non-trivial: the trees in use contain at least one split. Distinct by hash of the whole case.",
        assumptions: &["the JSON dump is read with an independent reader (serde_json Value)"],
        gen,
        check,
        quick: 40000,
        thorough: 800000,
        valid: valid_common,
    })
}
