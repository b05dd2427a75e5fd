//! C09: monotone constraints hold over the whole input space.
use vh::audit::U;
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 70, tail_rows: if i % 60 == 0 { 1500 } else { 250 }, max_cols: 5, ..Opt::default() };
    let mut c = gen_case(r, &o);
    let mut m = vec![];
    for j in 0..c.d.cols {
        if r.chance(0.75) {
            m.push((j, *r.pick(&[1i8, -1, 1, -1, 0])));
        }
    }
    if !m.iter().any(|e| e.1 != 0) {
        m.retain(|e| e.0 != 0);
        m.push((0, if r.chance(0.5) { 1 } else { -1 }));
    }
    c.p.mono = Some(m);
    c.p.max_depth = *r.pick(&[1, 2, 3, 4, 6, 10, 30]);
    c.p.max_leaves = if r.chance(0.2) { r.us(2, 12) } else { usize::MAX };
    if r.chance(0.7) {
        c.p.gamma = 0.0;
        c.p.min_leaf_weight = *r.pick(&[0.01, 0.1, 1.0]);
    }
    c.p.force_bound = r.chance(0.25);
    if r.chance(0.12) {
        c.p.sample = 1 + r.below(2) as u8;
        c.p.subsample = *r.pick(&[0.5, 0.8]);
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.1) {
        c.p.colsample = 0.7;
    }
    for _ in 0..6 {
        let s = c.p.missing;
        let q = gen_probe(r, &c.d);
        c.probes.push(q.into_iter().map(|v| if v.is_nan() { s } else { v }).collect());
    }
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = c.fit();
    let m = RModel::of(&b)?;
    let cons: Vec<(usize, i8)> = c.p.mono.clone().unwrap_or_default();
    let averaged = c.p.missing_branch && c.p.treatment >= 2;
    let mut used = 0;
    for &(j, dir) in &cons {
        if dir == 0 {
            continue;
        }
        // all distinct behaviours in feature j: one value per interval between split values
        let mut vals: Vec<f64> = vec![f64::NEG_INFINITY, f64::INFINITY];
        for t in &m.trees {
            for nd in &t.nodes {
                if !nd.leaf && nd.sf == j {
                    vals.push(nd.sv);
                    vals.push(next_down(nd.sv));
                }
            }
        }
        vals.retain(|v| !v.is_nan() && !is_missing(*v, c.p.missing));
        vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
        vals.dedup();
        if vals.len() > 2 {
            used += 1;
        }
        let mut bases = c.probes.clone();
        for i in 0..c.d.rows.min(15) {
            bases.push(c.d.row(i));
        }
        // tree by tree on the reference reader: any prefix of the trees is then monotone
        for (ti, t) in m.trees.iter().enumerate() {
            let wmax = t.nodes.iter().map(|n| n.w.abs() as f64).fold(0.0, f64::max);
            let tol = if averaged { 16.0 * U * wmax } else { 0.0 };
            for q in &bases {
                let mut prev: Option<(f64, f64)> = None;
                for &v in &vals {
                    let mut row = q.clone();
                    row[j] = v;
                    let f = t.nodes[t.leaf(&row, c.p.missing)].w as f64;
                    if let Some((pv, pf)) = prev {
                        let drop = if dir > 0 { pf - f } else { f - pf };
                        if drop > tol {
                            fail!("monotone", "tree {} feature {} (constraint {}): with the rest of the record {:?}, value {} gives {} and value {} gives {}", ti, j, dir, q, pv, pf, v, f);
                        }
                    }
                    prev = Some((v, f));
                }
            }
        }
        // and the real predictions
        let mut rows = vec![];
        for q in bases.iter().take(8) {
            for &v in &vals {
                let mut row = q.clone();
                row[j] = v;
                rows.push(row);
            }
        }
        let d = Data::from_rows(&rows, c.d.cols);
        let pr = b.predict(&d.matrix(), false);
        let scale: f64 = m.base.abs() + m.trees.iter().map(|t| t.nodes.iter().map(|n| n.w.abs() as f64).fold(0.0, f64::max)).sum::<f64>();
        let tol = 1e-13 * scale + if averaged { 16.0 * U * scale } else { 0.0 };
        for (k, ch) in pr.chunks(vals.len()).enumerate() {
            for i in 1..ch.len() {
                let drop = if dir > 0 { ch[i - 1] - ch[i] } else { ch[i] - ch[i - 1] };
                if drop > tol {
                    fail!("monotone", "feature {} (constraint {}): record {:?}: value {} predicts {} and value {} predicts {}", j, dir, bases[k], vals[i - 1], ch[i - 1], vals[i], ch[i]);
                }
            }
        }
    }
    // features marked unconstrained behave as if not listed
    if cons.iter().any(|e| e.1 == 0) {
        let mut q = c.clone();
        q.p.mono = Some(cons.iter().copied().filter(|e| e.1 != 0).collect());
        let mq = RModel::of(&q.fit())?;
        for (ti, (x, y)) in m.trees.iter().zip(&mq.trees).enumerate() {
            if canon(x, 0) != canon(y, 0) {
                fail!("unconstrained", "tree {} changes when the features marked Unconstrained are dropped from the map", ti);
            }
        }
    }
    if m.trees.iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.depth >= 2)) {
        ctx.label("depth 3 or more");
    }
    if c.p.missing_branch {
        ctx.label("missing branch");
    }
    if cons.len() < c.d.cols || cons.iter().any(|e| e.1 == 0) {
        ctx.label("mixed with unconstrained features");
    }
    Ok(used > 0)
}

fn main() {
    run(Spec {
        id: "C09",
        rule: "A case is a generated training problem with a mixed constraint map; each constrained feature is swept over one value per interval between its split values (plus both infinities) from 20+ base records, tree by tree and on real predictions. Non-trivial: a constrained feature is split on. Exact comparison, except averaged missing-leaf weights (16 single-precision ulps).",
        assumptions: &["sweeping one value per interval between split values covers all values of the feature, because routing compares with split values only"],
        gen,
        check,
        quick: 70000,
        thorough: 1400000,
        valid: |c| valid_common(c) && c.p.mono.as_ref().map_or(false, |m| m.iter().all(|e| e.0 < c.d.cols)),
    })
}
