//! C10: missing values in binary trees: learned direction, sentinel equivalence, allow_missing_splits.
use vh::audit::*;
use vh::*;

// split optimality, missing-only candidates included
#[path = "c08.rs"]
#[allow(dead_code)]
mod c08;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 70, tail_rows: if i % 60 == 0 { 1500 } else { 250 }, max_cols: 5, ..Opt::default() };
    let mut c = gen_case(r, &o);
    // start from NaN as the sentinel
    if !c.p.missing.is_nan() {
        let s = c.p.missing;
        for e in c.d.x.iter_mut() {
            if *e == s {
                *e = f64::NAN;
            }
        }
        for q in c.probes.iter_mut() {
            for e in q.iter_mut() {
                if *e == s {
                    *e = f64::NAN;
                }
            }
        }
        c.p.missing = f64::NAN;
    }
    // plant missing values if there are none
    if !c.d.x.iter().any(|v| v.is_nan()) || r.chance(0.3) {
        let j = r.below(c.d.cols);
        let pr = *r.pick(&[0.1, 0.3, 0.6]);
        // informative missingness half of the time
        let inf = r.chance(0.5);
        let mut ys = c.d.y.clone();
        ys.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let med = ys[ys.len() / 2];
        for i in 0..c.d.rows {
            if (inf && c.d.y[i] >= med && r.chance(0.8)) || (!inf && r.chance(pr)) {
                c.d.set(i, j, f64::NAN);
            }
        }
    }
    c.p.missing_branch = r.chance(0.15);
    c.p.allow_missing_splits = r.chance(0.5);
    if r.chance(0.2) {
        c.p.sample = 1;
        c.p.subsample = 0.7;
        c.p.l2 = c.p.l2.max(0.5);
    }
    c.nums.insert("sentinels".into(), vec![*r.pick(&[-9999.0, 0.0, 1.0, -1.0, 123456.75, f64::MAX, f64::MIN, 5e-324]), *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 3.0, -7.5, 1e300])]);
    c
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let p = &c.p;
    let b = c.fit();
    let m = RModel::of(&b)?;
    let pd = c.probe_data();
    let base_pred = b.predict(&pd.matrix(), false);
    let train_pred = b.predict(&c.d.matrix(), false);
    let mut nontrivial = false;
    // 1. any sentinel not occurring in the data is equivalent to NaN
    for &s in c.nums.get("sentinels").map(|v| v.as_slice()).unwrap_or(&[]) {
        if !sentinel_free(c, s) {
            continue;
        }
        let mut q = c.clone();
        use_sentinel(&mut q, s);
        let bq = q.fit();
        let mq = RModel::of(&bq)?;
        if mq.trees.len() != m.trees.len() {
            fail!("sentinel", "{} trees with sentinel {} and {} with NaN", mq.trees.len(), s, m.trees.len());
        }
        for (ti, (x, y)) in m.trees.iter().zip(&mq.trees).enumerate() {
            if canon(x, 0) != canon(y, 0) {
                fail!("sentinel", "tree {} differs between missing = NaN and missing = {}", ti, s);
            }
        }
        if !bits_eq(&bq.predict(&q.probe_data().matrix(), false), &base_pred) || !bits_eq(&bq.predict(&q.d.matrix(), true), &train_pred) {
            fail!("sentinel", "predictions differ between missing = NaN and missing = {}", s);
        }
        ctx.label("sentinel compared");
    }
    if p.missing_branch {
        return Ok(n_splits(&m) > 0 && c.d.x.iter().any(|v| v.is_nan()));
    }
    // 2. structure of the missing direction
    for (ti, t) in m.trees.iter().enumerate() {
        for (n, nd) in t.nodes.iter().enumerate() {
            if nd.leaf {
                continue;
            }
            if nd.miss != nd.left && nd.miss != nd.right {
                fail!("direction", "tree {} node {}: missing values go to node {} which is not one of the children {} and {}", ti, n, nd.miss, nd.left, nd.right);
            }
            if nd.miss == nd.left && !c.d.col(nd.sf).iter().any(|v| v.is_nan()) {
                fail!("default", "tree {} node {}: feature {} has no missing training values but missing goes left", ti, n, nd.sf);
            }
        }
    }
    if p.sample != 0 {
        return Ok(n_splits(&m) > 0);
    }
    // 3. direction is the better one; missing-only splits
    let nc: Vec<usize> = (0..c.d.cols).map(|j| ncuts(p, &c.d, j)).collect();
    let ncmax = *nc.iter().max().unwrap() as f64;
    let all: Vec<usize> = (0..c.d.rows).collect();
    let mut yh = YHat::new(&m, &c.d);
    for (ti, t) in m.trees.iter().enumerate() {
        let a = Audit::tree(p, &c.d, t, &yh.cur, &all, &nc)?;
        let (aroot, hroot) = (a.st[0].a, a.st[0].h);
        for (n, nd) in t.nodes.iter().enumerate() {
            if nd.leaf {
                continue;
            }
            let rows = &a.st[n].rows;
            let dd = nd.depth as f64 + 1.0;
            let (cg, ch) = if a.exact {
                (0.0, 0.0)
            } else {
                (a.st[n].eg + (ncmax + 8.0) * U * a.st[n].a + (2.0 * dd + 4.0) * U * aroot, a.st[n].eh + (ncmax + 8.0) * U * a.st[n].h + (2.0 * dd + 4.0) * U * hroot)
            };
            let stat = |f: &dyn Fn(f64) -> bool| {
                let (mut g, mut h, mut k) = (0.0, 0.0, 0);
                for &i in rows {
                    if f(c.d.get(i, nd.sf)) {
                        g += a.g[i];
                        h += a.h[i];
                        k += 1;
                    }
                }
                (g, h, k)
            };
            let l = stat(&|v| v < nd.sv);
            let r = stat(&|v| v >= nd.sv);
            let ms = stat(&|v| v.is_nan());
            if !p.allow_missing_splits && (l.2 == 0 || r.2 == 0) {
                fail!("missing-only", "tree {} node {} (feature {} < {}): one side has no record with a value although allow_missing_splits is off ({} left, {} right, {} missing)", ti, n, nd.sf, nd.sv, l.2, r.2, ms.2);
            }
            if l.2 == 0 || r.2 == 0 {
                ctx.label("missing-only split");
            }
            if ms.2 == 0 {
                if nd.miss != nd.right {
                    fail!("default", "tree {} node {}: no missing record in the node but missing goes left", ti, n);
                }
                continue;
            }
            if ms.0 == 0.0 && ms.1 == 0.0 {
                continue;
            }
            nontrivial = true;
            let eval = |g: f64, h: f64| newton(p, g, h, cg, ch).map(|(w, ew)| score(p, g, h, cg, ch, w, ew));
            let (Some(la), Some(ra)) = (eval(l.0 + ms.0, l.1 + ms.1), eval(r.0, r.1)) else { continue };
            let (Some(lb), Some(rb)) = (eval(l.0, l.1), eval(r.0 + ms.0, r.1 + ms.1)) else { continue };
            let left_gain = la.0 + ra.0;
            let right_gain = lb.0 + rb.0;
            let tol = la.1 + ra.1 + lb.1 + rb.1 + 12.0 * U * (la.0.abs() + ra.0.abs() + lb.0.abs() + rb.0.abs());
            let went_left = nd.miss == nd.left;
            if (went_left && right_gain > left_gain + tol) || (!went_left && left_gain > right_gain + tol) {
                fail!("direction", "tree {} node {} (feature {} < {}): {} missing records go {} (loss reduction {}), the other direction reduces the loss by {}", ti, n, nd.sf, nd.sv, ms.2,
                    if went_left { "left" } else { "right" }, if went_left { left_gain } else { right_gain }, if went_left { right_gain } else { left_gain });
            }
            if (left_gain - right_gain).abs() > tol {
                ctx.label(if went_left { "direction decided: left" } else { "direction decided: right" });
            }
        }
        yh.step(t, p.missing);
    }
    // 4. no better candidate, in particular none that separates missing from present records
    if p.allow_missing_splits && p.colsample >= 1.0 && c.d.rows <= 120 && c.d.cols <= 5 && m.trees.len() <= 6 {
        c08::check(c, ctx)?;
        ctx.label("compared with every candidate");
    }
    Ok(nontrivial)
}

pub fn valid(c: &Case) -> bool {
    valid_common(c) && c.p.missing.is_nan()
}

fn main() {
    run(Spec {
        id: "C10",
        rule: "A case is a generated training problem with missing values (half of them informative). Checked: the model under NaN and under two other sentinels is identical (bitwise), each split's missing direction is the better one for its records, default right, no missing-only split when disallowed; when allowed, no candidate (missing-only ones included) is certainly better than what was done. Non-trivial: a split is made among records with missing values of the split feature.",
        assumptions: &["a direction is judged only when the two loss reductions differ by more than the single-precision bound"],
        gen,
        check,
        quick: 50000,
        thorough: 1000000,
        valid,
    })
}
