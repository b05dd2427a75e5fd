//! C04: binning is consistent with the raw values; monotone transformations change nothing.
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 90, tail_rows: if i % 60 == 0 { 4000 } else { 400 }, max_cols: 4, ..Opt::default() };
    if i % 3000 == 17 {
        // as many distinct values as there are bin numbers, or about
        let mut c = gen_case(r, &Opt { max_rows: 5, max_cols: 1, nonfinite: false, tail_rows: 0, big: 0, ..Opt::default() });
        c.kind = "binning".into();
        c.probes.clear();
        c.p.missing = f64::NAN;
        c.p.iterations = 1;
        c.p.max_depth = 2;
        c.p.nbins = *r.pick(&[65535, 65535, 65535, 65534, 40000, 32768]);
        let n = (*r.pick(&[65536i64, 65536, 65535, 65537, 80000, 32768, 40001]) + r.int(0, 1) * r.int(-1, 1)) as usize;
        let step = *r.pick(&[1.0, 0.25, 3.5]);
        let mut x: Vec<f64> = (0..n).map(|k| (k as f64 - 30000.0) * step).collect();
        if r.chance(0.5) {
            r.shuffle(&mut x);
        }
        if r.chance(0.3) {
            x.extend([f64::NAN; 5]);
        }
        let m = x.len();
        c.d = Data { rows: m, cols: 1, y: (0..m).map(|k| ((k / 7) % 2) as f64).collect(), w: vec![1.0; m], x };
        return c;
    }
    if r.chance(0.6) {
        let mut c = gen_case(r, &o);
        c.kind = "binning".into();
        c.probes.clear();
        c.p.nbins = *r.pick(&[1, 2, 3, 4, 5, 7, 10, 16, 33, 100, 256, 1000]);
        // around the switch from values to quantiles
        if r.chance(0.3) {
            let j = r.below(c.d.cols);
            let mut v: Vec<f64> = c.d.col(j).iter().copied().filter(|x| !is_missing(*x, c.p.missing)).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            let k = v.len() as i64 + r.int(-3, 2);
            c.p.nbins = k.clamp(1, 3000) as u16;
        }
        return c;
    }
    // transformation: finite values only
    let o = Opt { nonfinite: false, ..o };
    let mut c = gen_case(r, &o);
    c.kind = "transform".into();
    c.p.mono = gen_mono(r, c.d.cols);
    if r.chance(0.15) {
        c.p.sample = 1;
        c.p.subsample = 0.6;
        c.p.l2 = c.p.l2.max(0.5);
    }
    if c.p.missing.is_finite() || c.p.missing.is_infinite() {
        let s = c.p.missing;
        c.p.missing = f64::NAN;
        for v in c.d.x.iter_mut().chain(c.probes.iter_mut().flatten()) {
            if *v == s {
                *v = f64::NAN;
            }
        }
    }
    for q in c.probes.iter_mut() {
        for v in q.iter_mut() {
            if v.is_infinite() || v.abs() == f64::MAX {
                *v = 0.25;
            }
        }
    }
    c.setn("map", r.below(5) as f64);
    c.setn("mapseed", r.below(1 << 30) as f64);
    c
}

/// Without access to the binning: the split values of a model are cut points by definition.
fn check_split_values(c: &Case) -> Result<bool, String> {
    let m = RModel::of(&c.fit())?;
    let cuts: Vec<Option<Vec<f64>>> = (0..c.d.cols).map(|j| internals::ref_cuts(&c.p, &c.d, j)).collect();
    for t in &m.trees {
        for nd in t.nodes.iter().filter(|n| !n.leaf) {
            if let Some(k) = &cuts[nd.sf] {
                if !k.contains(&nd.sv) {
                    fail!("split value", "split value {} of feature {} is not a cut point", nd.sv, nd.sf);
                }
            }
        }
    }
    Ok(n_splits(&m) > 0)
}

fn check_binning(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let (p, d) = (&c.p, &c.d);
    let b = match internals::bins(p, d) {
        Some(Ok(b)) => b,
        Some(Err(e)) => fail!("binning", "{}", e),
        None => return check_split_values(c),
    };
    let nb = p.nbins as usize;
    let mut nontrivial = false;
    for j in 0..d.cols {
        let cuts = &b.cuts[j];
        if b.nunique[j] != cuts.len() {
            fail!("nunique", "column {}: nunique {} but {} cuts", j, b.nunique[j], cuts.len());
        }
        for k in 1..cuts.len() {
            if !(cuts[k - 1] < cuts[k]) {
                fail!("order", "column {}: cuts {} and {} are not strictly increasing", j, cuts[k - 1], cuts[k]);
            }
        }
        // record bins
        for i in 0..d.rows {
            let v = d.get(i, j);
            let want = if is_missing(v, p.missing) { 0 } else { cuts.partition_point(|x| *x <= v) };
            let got = b.bins[j * d.rows + i] as usize;
            if got != want {
                fail!("bin", "column {} value {}: bin {} but {} cut points are not larger", j, v, got, want);
            }
        }
        // cut points
        let mut pairs: Vec<(f64, f64)> = (0..d.rows).filter(|i| !is_missing(d.get(*i, j), p.missing)).map(|i| (d.get(i, j), d.w[i])).collect();
        pairs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let mut uniq: Vec<f64> = pairs.iter().map(|e| e.0).collect();
        uniq.dedup();
        let user: Vec<f64> = cuts.iter().copied().filter(|x| *x != f64::MAX).collect();
        for x in &user {
            if uniq.binary_search_by(|u| u.partial_cmp(x).unwrap()).is_err() {
                fail!("cut", "column {}: cut {} is not a value of the column", j, x);
            }
        }
        if !cuts.contains(&f64::MAX) {
            fail!("cut", "column {}: no closing cut", j);
        }
        let uniq_user: Vec<f64> = uniq.iter().copied().filter(|x| *x != f64::MAX).collect();
        if uniq.len() <= nb {
            if user != uniq_user {
                fail!("values", "column {}: {} distinct values, {} bins, but the cuts {:?} are not the values {:?}", j, uniq.len(), nb, &user[..user.len().min(100)], &uniq_user[..uniq_user.len().min(100)]);
            }
            ctx.label("column binned by values");
            nontrivial |= uniq.len() > 1;
            continue;
        }
        if uniq.len() == nb + 1 && user == uniq_user {
            ctx.label("column at the switch");
            continue;
        }
        let total: f64 = pairs.iter().map(|e| e.1).sum();
        if !(total > 0.0) {
            continue;
        }
        let mut cum = vec![];
        let mut s = 0.0;
        for e in &pairs {
            s += e.1;
            cum.push(s / total);
        }
        let eps = 1e-12 * (pairs.len() as f64 + 10.0);
        let at = |lv: f64| -> f64 {
            let k = cum.partition_point(|x| *x < lv).min(pairs.len() - 1);
            pairs[k].0
        };
        let mut ranges = vec![(pairs[0].0, pairs[0].0)];
        for k in 1..nb {
            let lv = k as f64 / nb as f64;
            ranges.push((at(lv - eps), at(lv + eps)));
        }
        for (k, (lo, hi)) in ranges.iter().enumerate() {
            if *lo == f64::MAX || *hi == f64::MAX {
                continue;
            }
            if !user.get(user.partition_point(|x| x < lo)).is_some_and(|x| x <= hi) {
                fail!("quantile", "column {}: no cut at the weighted quantile of level {}/{} (value in [{}, {}]); cuts {:?}", j, k, nb, lo, hi, &user[..user.len().min(100)]);
            }
        }
        for x in &user {
            // both ends of the ranges are sorted
            let k = ranges.partition_point(|(lo, _)| lo <= x);
            if k == 0 || ranges[k - 1].1 < *x {
                fail!("quantile", "column {}: cut {} is not at any of the {} quantile levels", j, x, nb);
            }
        }
        nontrivial = true;
        ctx.label("column binned by quantiles");
    }
    // the split values of a fitted model are cut points
    let m = RModel::of(&c.fit())?;
    for t in &m.trees {
        for nd in &t.nodes {
            if !nd.leaf && !b.cuts[nd.sf].contains(&nd.sv) {
                fail!("split value", "split value {} of feature {} is not a cut point", nd.sv, nd.sf);
            }
        }
    }
    Ok(nontrivial)
}

/// Strictly increasing on the values present: map every distinct value to a new one of equal rank.
fn transform(c: &Case) -> Option<(Data, Vec<Vec<f64>>)> {
    let mut r = Rng::new(c.num("mapseed") as u64, "map", 0);
    let mut d = c.d.clone();
    let mut pr = c.probes.clone();
    for j in 0..c.d.cols {
        let mut vals: Vec<f64> = c.d.col(j).iter().copied().chain(pr.iter().map(|q| q[j])).filter(|v| !v.is_nan()).collect();
        if vals.iter().any(|v| v.is_infinite() || v.abs() == f64::MAX) {
            return None;
        }
        vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
        vals.dedup();
        let n = vals.len();
        let new: Vec<f64> = match c.num("map") as u64 {
            0 => (0..n).map(|k| k as f64).collect(),
            1 => {
                let mut x = -r.unit() * 1e6;
                (0..n)
                    .map(|_| {
                        x += (r.normal() * 4.0).exp();
                        x
                    })
                    .collect()
            }
            2 => {
                let mut x = r.normal();
                (0..n)
                    .map(|_| {
                        x = next_up(x);
                        x
                    })
                    .collect()
            }
            3 => (0..n).map(|k| -1e300 + 1e297 * k as f64).collect(),
            _ => vals.iter().map(|v| 2.0 * (v / 4.0)).collect(),
        };
        for k in 1..n {
            if !(new[k - 1] < new[k]) {
                return None;
            }
        }
        let f = |v: f64| if v.is_nan() { v } else { new[vals.partition_point(|x| *x < v)] };
        for i in 0..d.rows {
            d.set(i, j, f(c.d.get(i, j)));
        }
        for (q, o) in pr.iter_mut().zip(&c.probes) {
            q[j] = f(o[j]);
        }
    }
    Some((d, pr))
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    if c.kind == "binning" {
        return check_binning(c, ctx);
    }
    let Some((d, pr)) = transform(c) else { return Ok(false) };
    let b = c.fit();
    let mut q = c.clone();
    q.d = d;
    q.probes = pr;
    let bq = q.fit();
    if !bits_eq(&b.predict(&c.d.matrix(), false), &bq.predict(&q.d.matrix(), false)) {
        fail!("transform", "predictions of the training records change under a strictly increasing transformation of the features");
    }
    if !c.probes.is_empty() {
        // a record between two training values keeps its side of every cut
        if !bits_eq(&b.predict(&c.probe_data().matrix(), false), &bq.predict(&q.probe_data().matrix(), false)) {
            fail!("transform", "predictions of new records change under a strictly increasing transformation of the features");
        }
    }
    Ok(b.trees.iter().any(|t| t.nodes.len() > 1))
}

fn main() {
    run(Spec {
        id: "C04",
        rule: "binning cases: a generated matrix with weights, bin counts around and away from the number of distinct values, any sentinel; cuts and bins are compared with a direct reference (distinct values or weighted quantiles with an interval of 1e-12 n around each level). transform cases: the problem is refitted with every feature replaced by a strictly increasing function of it. Non-trivial: a column with more than one value was binned / at least one split.",
        assumptions: &["at exactly nbins+1 distinct values either form of cuts is accepted", "quantile levels within 1e-12*n of a cumulative weight accept either neighbouring value"],
        gen,
        check,
        quick: 60000,
        thorough: 1200000,
        valid: |c| valid_common(c) && c.p.nbins > 0,
    })
}
