//! C21: symmetries of training under record order, weights, scale and uninformative additions.
use vh::audit::*;
use vh::*;

const KINDS: [&str; 9] = ["permute", "repeat", "zero weight", "unit weights", "weight scale", "label scale", "constant column", "label shift", "swap classes"];

fn gen(r: &mut Rng, i: usize) -> Case {
    let kind = i % 9;
    let exact = matches!(kind, 0 | 1 | 2 | 7 | 8);
    let mut o = Opt { max_rows: 60, tail_rows: if i % 40 == 0 { 900 } else { 200 }, max_cols: 5, exact, ..Opt::default() };
    if kind < 3 && r.chance(0.015) {
        o.max_rows = 6000;
        o.tail_rows = 9000;
        o.max_cols = 2;
    }
    let mut c = gen_case(r, &o);
    c.kind = KINDS[kind].into();
    c.p.mono = gen_mono(r, c.d.cols);
    if exact {
        // small dyadic steps so that several trees stay exact
        if r.chance(0.6) {
            c.p.max_delta_step = *r.pick(&[0.25, 0.5, 1.0]);
            c.p.learning_rate = *r.pick(&[1.0, 0.5]);
            c.p.l1 = 0.0;
            c.p.l2 = *r.pick(&[0.0, 1.0]);
        }
        if matches!(kind, 0 | 1 | 2) && r.chance(0.25) || kind == 8 {
            c.p.logloss = true;
            c.p.base_score = 0.0;
            c.p.init_base = false;
            c.p.l2 = *r.pick(&[1.0, 0.5, 3.0]);
            c.p.min_leaf_weight = *r.pick(&[0.25, 0.5, 1.0]);
            c.p.iterations = 1;
            let m = c.d.y.iter().cloned().fold(0.0, |a: f64, b| a + b) / c.d.rows as f64;
            for y in c.d.y.iter_mut() {
                *y = if *y > m { 1.0 } else { 0.0 };
            }
        }
        if kind == 7 && r.chance(0.5) {
            c.p.init_base = false;
        }
    } else {
        if r.chance(0.3) {
            c.p.sample = 1 + r.below(2) as u8;
            c.p.subsample = *r.pick(&[0.3, 0.5, 0.8]);
            c.p.top_rate = *r.pick(&[0.1, 0.3]);
            c.p.other_rate = *r.pick(&[0.2, 0.5]);
            c.p.l2 = c.p.l2.max(0.5);
        }
        if kind == 5 {
            c.p.logloss = false;
            if c.p.l2 == 0.0 && c.p.sample != 0 {
                c.p.l2 = 1.0;
            }
        }
        if r.chance(0.3) && kind != 6 {
            c.p.colsample = *r.pick(&[0.3, 0.6, 0.9]);
        }
        if r.chance(0.3) {
            let mut e = gen_eval(r, &c.d, c.p.logloss, &o);
            let s = c.p.missing;
            e.x.iter_mut().for_each(|v| {
                if v.is_nan() {
                    *v = s
                }
            });
            c.evals = vec![e];
            c.p.esr = *r.pick(&[None, Some(1), Some(2)]);
            if kind == 5 {
                c.p.metric = Some(3);
            }
        }
        c.p.force_bound = r.chance(0.1);
    }
    match kind {
        1 => c.d.w = (0..c.d.rows).map(|_| r.int(1, 4) as f64).collect(),
        3 => {
            c.d.w = vec![1.0; c.d.rows];
            if c.p.logloss && c.p.init_base {
                ensure_two_class(&mut c.d);
            }
        }
        4 | 5 => {
            c.setn("k", *r.pick(&[-7.0, -3.0, -1.0, 1.0, 2.0, 5.0, 8.0]));
            c.setn("sign", if kind == 5 && r.chance(0.5) { -1.0 } else { 1.0 });
            if c.num("sign") < 0.0 {
                // bounding equal children to their parent breaks the tie by side, not by sign
                c.p.force_bound = false;
            }
        }
        7 => c.setn("shift", r.int(-12, 12) as f64 * 0.5),
        _ => {}
    }
    if matches!(kind, 0 | 1 | 2) {
        // Cut points at weighted quantiles: cumulated weight fractions are only exact when the total
        // is a power of two. Either there is a bin per distinct value, or the total is made one.
        if r.chance(0.6) {
            c.p.nbins = c.p.nbins.max(c.d.rows as u16 + 2);
        } else {
            c.p.nbins = c.p.nbins.min(300);
            let f = r.int(-3, 3) as f64;
            let mv = c.p.missing;
            c.d.x.iter_mut().for_each(|v| {
                if is_missing(*v, mv) {
                    *v = if is_missing(f, mv) { 10.0 } else { f }
                }
            });
            let t: f64 = c.d.w.iter().sum();
            let p2 = (t as u64).next_power_of_two() as f64;
            let k = r.below(c.d.rows);
            c.d.w[k] += p2 - t;
        }
    }
    c.setn("perm", r.below(1 << 30) as f64);
    c
}

/// Whether the cut points of every feature are free of rounding.
fn cuts_exact(c: &Case) -> bool {
    (0..c.d.cols).all(|j| {
        let mut v: Vec<f64> = c.d.col(j).iter().copied().filter(|v| !is_missing(*v, c.p.missing)).collect();
        let t: f64 = (0..c.d.rows).filter(|i| !is_missing(c.d.get(*i, j), c.p.missing)).map(|i| c.d.w[i]).sum();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v.len() <= c.p.nbins as usize || (t == t.round() && (t as u64).is_power_of_two())
    })
}

/// Compare subtrees up to a scaling of weights, gains and covers.
fn cmp(a: &RTree, b: &RTree, x: usize, y: usize, s: (f32, f32, f32)) -> Result<(), String> {
    let (p, q) = (&a.nodes[x], &b.nodes[y]);
    let e = |u: f32, v: f32| u.to_bits() == v.to_bits() || u == v || (u.is_nan() && v.is_nan());
    if p.leaf != q.leaf {
        return Err(format!("node {} is {} but its counterpart {} is not", x, if p.leaf { "a leaf" } else { "split" }, y));
    }
    if !e(p.w * s.0, q.w) {
        return Err(format!("node {} has weight {:e} (scaled: {:e}), its counterpart {:e}", x, p.w, p.w * s.0, q.w));
    }
    if !e(p.h * s.2, q.h) {
        return Err(format!("node {} has cover {} (scaled: {}), its counterpart {}", x, p.h, p.h * s.2, q.h));
    }
    if p.leaf {
        return Ok(());
    }
    if p.sf != q.sf || !(p.sv == q.sv) {
        return Err(format!("node {} splits feature {} at {}, its counterpart feature {} at {}", x, p.sf, p.sv, q.sf, q.sv));
    }
    if !e(p.gain * s.1, q.gain) {
        return Err(format!("node {} has gain {:e} (scaled: {:e}), its counterpart {:e}", x, p.gain, p.gain * s.1, q.gain));
    }
    let dir = |n: &RNode| if n.miss == n.left { 0 } else if n.miss == n.right { 1 } else { 2 };
    if dir(p) != dir(q) {
        return Err(format!("node {} sends missing values elsewhere than its counterpart", x));
    }
    cmp(a, b, p.left, q.left, s)?;
    cmp(a, b, p.right, q.right, s)?;
    if dir(p) == 2 {
        cmp(a, b, p.miss, q.miss, s)?;
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let kind = KINDS.iter().position(|k| *k == c.kind).ok_or("unknown kind")?;
    if matches!(kind, 0 | 1 | 2) && !cuts_exact(c) {
        return Ok(false);
    }
    let a = c.fit();
    let ma = RModel::of(&a)?;
    let mut r = Rng::new(c.num("perm") as u64, "c21", 0);
    let mut q = c.clone();
    let mut s = (1f32, 1f32, 1f32); // weight, gain, cover
    let n = c.d.rows;
    let exact_kind = matches!(kind, 0 | 1 | 2 | 7 | 8);
    let mut shift = 0.0;
    match kind {
        0 => {
            let mut idx: Vec<usize> = (0..n).collect();
            r.shuffle(&mut idx);
            q.d = c.d.select_rows(&idx);
        }
        1 => {
            if c.d.w.iter().any(|w| *w != w.round() || *w < 1.0) {
                return Ok(false);
            }
            let mut idx = vec![];
            for i in 0..n {
                for _ in 0..c.d.w[i] as usize {
                    idx.push(i);
                }
            }
            if r.chance(0.5) {
                r.shuffle(&mut idx);
            }
            q.d = c.d.select_rows(&idx);
            q.d.w = vec![1.0; idx.len()];
        }
        2 => {
            let pos: Vec<usize> = (0..n).filter(|i| c.d.w[*i] > 0.0).collect();
            if pos.is_empty() {
                return Ok(false);
            }
            let mut rows: Vec<Vec<f64>> = (0..n).map(|i| c.d.row(i)).collect();
            let (mut y, mut w) = (c.d.y.clone(), c.d.w.clone());
            for _ in 0..r.us(1, n.min(30) + 2) {
                let at = r.below(rows.len() + 1);
                let base = *r.pick(&pos);
                let mix = r.chance(0.5);
                rows.insert(at, (0..c.d.cols).map(|j| c.d.get(if mix { *r.pick(&pos) } else { base }, j)).collect());
                y.insert(at, if c.p.logloss { r.below(2) as f64 } else { r.int(-16, 16) as f64 });
                w.insert(at, 0.0);
            }
            q.d = Data::from_rows(&rows, c.d.cols);
            q.d.y = y;
            q.d.w = w;
        }
        3 => {}
        4 => {
            let f = 2f64.powi(c.num("k") as i32);
            q.d.w.iter_mut().for_each(|w| *w *= f);
            q.evals.iter_mut().for_each(|e| e.w.iter_mut().for_each(|w| *w *= f));
            let g = f as f32;
            q.p.l1 *= g;
            q.p.l2 *= g;
            q.p.gamma *= g;
            q.p.min_leaf_weight *= g;
            s = (1.0, g, g);
        }
        5 => {
            let f = 2f64.powi(c.num("k") as i32);
            let sg = if c.num("sign") < 0.0 { -1.0 } else { 1.0 };
            let tr = |y: &mut f64| *y *= f * sg;
            q.d.y.iter_mut().for_each(tr);
            q.evals.iter_mut().for_each(|e| e.y.iter_mut().for_each(tr));
            q.p.base_score *= f * sg;
            q.p.l1 *= f as f32;
            q.p.max_delta_step *= f as f32;
            q.p.gamma *= (f * f) as f32;
            if sg < 0.0 {
                if let Some(m) = &mut q.p.mono {
                    m.iter_mut().for_each(|e| e.1 = -e.1);
                }
            }
            s = ((f * sg) as f32, (f * f) as f32, 1.0);
        }
        6 => {
            let v = *r.pick(&[0.0, 1.0, -3.5, 1e9]);
            if is_missing(v, c.p.missing) {
                return Ok(false);
            }
            q.d.x.extend(vec![v; n]);
            q.d.cols += 1;
            for e in q.evals.iter_mut() {
                e.x.extend(vec![v; e.rows]);
                e.cols += 1;
            }
            q.probes.iter_mut().for_each(|p| p.push(*r.pick(&[v, v + 1.0, v - 1.0])));
        }
        7 => {
            shift = c.num("shift");
            q.d.y.iter_mut().for_each(|y| *y += shift);
            q.p.base_score += shift;
        }
        _ => {
            q.d.y.iter_mut().for_each(|y| *y = 1.0 - *y);
            q.p.base_score = 0.0;
            if let Some(m) = &mut q.p.mono {
                m.iter_mut().for_each(|e| e.1 = -e.1);
            }
            s = (-1.0, 1.0, 1.0);
        }
    }
    let b = if kind == 3 {
        let mut b = q.p.build();
        let m = q.d.matrix();
        let ev = if q.evals.is_empty() { None } else { Some(q.evals.iter().map(|e| (e.matrix(), e.y.as_slice(), e.w.as_slice())).collect()) };
        b.fit_unweighted(&m, &q.d.y, ev).map_err(|e| format!("fit_unweighted: {}", e))?;
        b
    } else {
        q.fit()
    };
    let mb = RModel::of(&b)?;
    // number of leading trees for which every sum is exact (or safely away from underflow)
    let nt = ma.trees.len();
    let mut good = 0;
    let mut yh = YHat::new(&ma, &c.d);
    let mut want_base = a.base_score;
    match kind {
        5 => want_base *= s.0 as f64,
        7 => want_base += shift,
        8 => want_base = -want_base,
        _ => {}
    }
    if exact_kind && c.p.init_base && kind != 8 {
        // the initial score is a mean, rounded differently in another order
        if !close(b.base_score, want_base, 1e-9 * (1.0 + want_base.abs())) {
            fail!(c.kind, "base score {} became {}", a.base_score, b.base_score);
        }
        if b.base_score != want_base {
            return Ok(false);
        }
    } else if b.base_score != want_base && !(b.base_score.is_nan() && want_base.is_nan()) {
        fail!(c.kind, "base score {} became {}, expected {}", a.base_score, b.base_score, want_base);
    }
    for t in 0..nt {
        let ok = if exact_kind {
            if c.p.logloss {
                t == 0 && c.p.base_score == 0.0 && !c.p.init_base && c.d.y.iter().all(|y| *y == 0.0 || *y == 1.0) && dyadic_exact(&c.d.w)
            } else {
                let mut sh = vec![];
                if kind == 7 {
                    // the shifted problem must be exact as well
                    sh = yh.cur.iter().map(|v| v + shift).collect();
                }
                is_exact(&c.p, &c.d, &yh.cur) && (kind != 7 || is_exact(&q.p, &q.d, &sh))
            }
        } else if kind == 4 || kind == 5 {
            let (g, h, _, _) = grad_hess(&c.p, &c.d, &yh.cur);
            // keep away from single-precision underflow and overflow, where scaling is not exact
            let okv = |v: &f64| *v == 0.0 || (v.abs() > 1e-9 && v.abs() < 1e12);
            g.iter().all(okv) && h.iter().all(okv)
        } else {
            true
        };
        if !ok {
            break;
        }
        good = t + 1;
        yh.step(&ma.trees[t], ma.missing);
    }
    for t in 0..good {
        if t >= mb.trees.len() {
            fail!(c.kind, "{} trees became {}", nt, mb.trees.len());
        }
        if let Err(e) = cmp(&ma.trees[t], &mb.trees[t], 0, 0, s) {
            fail!(c.kind, "tree {}: {}", t, e);
        }
    }
    if good == nt {
        if mb.trees.len() != nt {
            fail!(c.kind, "{} trees became {}", nt, mb.trees.len());
        }
        if a.best_iteration != b.best_iteration || a.prediction_iteration != b.prediction_iteration {
            fail!(c.kind, "best iteration {:?} became {:?}", a.best_iteration, b.best_iteration);
        }
        // predictions of the original records and of unseen ones
        let mut rows: Vec<Vec<f64>> = (0..n.min(60)).map(|i| c.d.row(i)).collect();
        rows.extend(c.probes.iter().cloned());
        let da = Data::from_rows(&rows, c.d.cols);
        let mut rb = rows.clone();
        if kind == 6 {
            rb = (0..n.min(60)).map(|i| q.d.row(i)).collect();
            rb.extend(q.probes.iter().cloned());
        }
        let db = Data::from_rows(&rb, q.d.cols);
        let (pa, pb) = (a.predict(&da.matrix(), false), b.predict(&db.matrix(), false));
        for i in 0..pa.len() {
            let want = match kind {
                5 => pa[i] * s.0 as f64,
                8 => -pa[i],
                _ => pa[i] + shift,
            };
            let ok = if kind == 7 { close(pb[i], want, 1e-9 * (1.0 + want.abs())) } else { pb[i] == want || (pb[i].is_nan() && want.is_nan()) };
            if !ok {
                fail!(c.kind, "prediction {} became {}, expected {}", pa[i], pb[i], want);
            }
        }
        ctx.label("all trees compared");
    }
    ctx.add("trees compared", good as u64);
    if good > 1 && exact_kind {
        ctx.label("several exact trees");
    }
    Ok(ma.trees[..good].iter().any(|t| t.nodes.len() > 1))
}

fn main() {
    run(Spec {
        id: "C21",
        rule: "A case is a training problem together with a transformed one: records permuted; integer weights replaced by repetition; zero-weight records inserted at values occurring elsewhere; fit_unweighted; weights and weight-like parameters scaled by a power of two; labels scaled or negated; a constant column appended; labels shifted; classes swapped. Trees and predictions must correspond exactly, tree by tree, as long as the sums involved are exact (or free of underflow). Non-trivial: a compared tree has at least one split.",
        assumptions: &["order-changing symmetries are compared on problems whose single-precision sums are exact, so that no tie can be broken by rounding"],
        gen,
        check,
        quick: 45000,
        thorough: 900000,
        valid: valid_common,
    })
}
