//! C11: missing-branch trees treat missing values as configured.
use vh::audit::*;
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 70, tail_rows: if i % 60 == 0 { 1500 } else { 250 }, max_cols: 5, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.probes.clear();
    c.p.missing_branch = true;
    c.p.treatment = r.below(4) as u8;
    c.p.allow_missing_splits = r.chance(0.6);
    c.p.terminate = if r.chance(0.5) { (0..c.d.cols).filter(|_| r.chance(0.4)).collect() } else { vec![] };
    c.p.force_bound = r.chance(0.25);
    c.p.mono = gen_mono(r, c.d.cols);
    if r.chance(0.5) {
        c.p.min_leaf_weight = if c.p.l2 > 0.0 { *r.pick(&[0.0, 0.01, 0.1, 0.5]) } else { *r.pick(&[0.01, 0.1, 0.5]) };
        c.p.gamma = 0.0;
    }
    if r.chance(0.25) {
        c.p.colsample = *r.pick(&[0.3, 0.5, 0.7]);
    }
    if r.chance(0.15) {
        c.p.sample = 1 + r.below(2) as u8;
        c.p.subsample = *r.pick(&[0.5, 0.8]);
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.5) {
        let j = r.below(c.d.cols);
        for i in 0..c.d.rows {
            if r.chance(0.25) {
                c.d.set(i, j, c.p.missing);
            }
        }
    }
    c
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let p = &c.p;
    let b = c.fit();
    let m = RModel::of(&b)?;
    let nc: Vec<usize> = (0..c.d.cols).map(|j| ncuts(p, &c.d, j)).collect();
    let all: Vec<usize> = (0..c.d.rows).collect();
    let mut yh = YHat::new(&m, &c.d);
    let lr = p.learning_rate as f64;
    let mut seen_missing = false;
    for (ti, t) in m.trees.iter().enumerate() {
        let a = Audit::tree(p, &c.d, t, &yh.cur, &all, &nc)?;
        let grow = a.grow(p, t, false);
        for (n, nd) in t.nodes.iter().enumerate() {
            if nd.leaf {
                continue;
            }
            if !nd.ternary() {
                fail!("branch", "tree {} node {}: split without a separate missing child", ti, n);
            }
            let want: Vec<usize> = a.st[n].rows.iter().copied().filter(|i| is_missing(c.d.get(*i, nd.sf), p.missing)).collect();
            let ms = &a.st[nd.miss];
            let hs: f64 = want.iter().map(|i| a.h[*i]).sum();
            // which records a sampled tree was grown on is not known here (C19)
            let full = p.sample == 0;
            if full && !((t.nodes[nd.miss].h as f64 - hs).abs() <= ms.eh) {
                fail!("branch", "tree {} node {}: missing child cover {} but the {} records missing feature {} have hessian {}", ti, n, t.nodes[nd.miss].h, want.len(), nd.sf, hs);
            }
            if !want.is_empty() {
                seen_missing = true;
            }
            // splitting of the missing child
            let mnode = &t.nodes[nd.miss];
            if !mnode.leaf {
                ctx.label("missing child split further");
                if p.colsample < 1.0 {
                    ctx.label("missing child split further, columns sampled");
                }
                if !p.allow_missing_splits {
                    fail!("missing-split", "tree {} node {}: missing child {} is split although allow_missing_splits is off", ti, n, nd.miss);
                }
                if p.terminate.contains(&nd.sf) {
                    fail!("missing-split", "tree {} node {}: missing child {} of terminated feature {} is split", ti, n, nd.miss, nd.sf);
                }
                if want.is_empty() {
                    fail!("missing-split", "tree {} node {}: missing child {} is split without any missing record", ti, n, nd.miss);
                }
            }
            // weights while growing
            if p.treatment != 2 {
                if p.treatment == 1 && mnode.w.to_bits() != nd.w.to_bits() {
                    fail!("treatment", "tree {} node {}: AssignToParent but the missing child's weight {} is not its parent's {}", ti, n, mnode.w, nd.w);
                }
                // relation to the dumped siblings and parent
                if p.treatment == 3 {
                    let (l, r) = (&t.nodes[nd.left], &t.nodes[nd.right]);
                    let avg = (l.w as f64 * l.h as f64 + r.w as f64 * r.h as f64) / (l.h as f64 + r.h as f64);
                    let tol = 16.0 * U * l.w.abs().max(r.w.abs()) as f64 + 1e-37;
                    if !((mnode.w as f64 - avg).abs() <= tol) {
                        fail!("treatment", "tree {} node {}: AverageNodeWeight but the missing child's weight {} is not the cover-weighted average {} of its siblings", ti, n, mnode.w, avg);
                    }
                }
                if p.treatment == 0 && want.is_empty() && mnode.w.to_bits() != nd.w.to_bits() {
                    fail!("treatment", "tree {} node {}: no missing record, but the missing child's weight {} is not its parent's {}", ti, n, mnode.w, nd.w);
                }
                if let (Some(g), true) = (grow[nd.miss], full) {
                    let w = g.w * lr;
                    let tol = g.ew * lr + 4.0 * U * w.abs() + 1e-37;
                    let err = (mnode.w as f64 - w).abs();
                    ctx.ratio("missing weight", err / tol);
                    if !(err <= tol) {
                        fail!("treatment", "tree {} node {}: treatment {} gives the missing child weight {} but it has {} (tolerance {:e})", ti, n, TREATMENTS[p.treatment as usize], w, mnode.w, tol);
                    }
                    ctx.label(&format!("missing weight checked: {}", TREATMENTS[p.treatment as usize]));
                }
            }
            // bounding
            if p.force_bound && p.treatment != 2 {
                let (l, r) = (t.nodes[nd.left].w, t.nodes[nd.right].w);
                let (lo, hi) = (l.min(r), l.max(r));
                if !(lo <= nd.w && nd.w <= hi) {
                    fail!("bound", "tree {} node {}: children weights {} and {} do not enclose the parent weight {}", ti, n, l, r, nd.w);
                }
                ctx.label("bounded split checked");
            }
        }
        if p.treatment == 2 {
            // bottom-up average of the final leaves, terminal missing leaves excluded
            fn avg(t: &RTree, n: usize) -> f64 {
                let nd = &t.nodes[n];
                if nd.leaf {
                    return nd.w as f64;
                }
                let (l, r) = (&t.nodes[nd.left], &t.nodes[nd.right]);
                let mut s = l.h as f64 * avg(t, nd.left) + r.h as f64 * avg(t, nd.right);
                let mut h = l.h as f64 + r.h as f64;
                let mm = &t.nodes[nd.miss];
                if !mm.leaf {
                    s += mm.h as f64 * avg(t, nd.miss);
                    h += mm.h as f64;
                }
                s / h
            }
            let wmax = t.nodes.iter().map(|n| n.w.abs() as f64).fold(0.0, f64::max);
            for (n, nd) in t.nodes.iter().enumerate() {
                if nd.leaf {
                    continue;
                }
                let w = avg(t, n);
                let tol = 4.0 * U * w.abs() + 1e-12 * wmax + 1e-40;
                if !((nd.w as f64 - w).abs() <= tol) {
                    fail!("treatment", "tree {} node {}: AverageLeafWeight but the node's weight {} is not the average {} of the leaves below", ti, n, nd.w, w);
                }
                let mm = &t.nodes[nd.miss];
                if mm.leaf && mm.w.to_bits() != nd.w.to_bits() {
                    fail!("treatment", "tree {} node {}: AverageLeafWeight but the missing leaf has weight {}, average {}", ti, n, mm.w, w);
                }
                ctx.label("missing weight checked: AverageLeafWeight");
            }
        }
        yh.step(t, p.missing);
    }
    Ok(n_splits(&m) > 0 && seen_missing)
}

fn main() {
    run(Spec {
        id: "C11",
        rule: "A case is a generated training problem with create_missing_branch and any treatment, terminate set, allow_missing_splits, constraints and bounding. Every split's missing child is compared with its records, with the weight its treatment prescribes (from the dump's parent/siblings and recomputed from the records) and with the rules for splitting it. Non-trivial: at least one split with missing records.",
        assumptions: &["recomputed weights are compared within single-precision bounds; relations between dumped weights within a few ulps"],
        gen,
        check,
        quick: 90000,
        thorough: 1800000,
        valid: valid_common,
    })
}
