//! C19: row and column sampling. Samples are decoded from root covers: with squared loss and
//! weights that are distinct powers of two, a tree's root cover names the sampled records.
use vh::audit::*;
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 24, tail_rows: 24, max_cols: 3, zero_w: false, big: 0, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.p.gamma = 0.0;
    c.p.min_leaf_weight = *r.pick(&[1.0, 0.01]);
    c.p.init_base = false;
    c.p.base_score = *r.pick(&[0.0, 0.5, -2.0]);
    c.p.max_depth = *r.pick(&[1, 2, 3, 5]);
    c.p.l2 = *r.pick(&[1.0, 0.5, 4.0]);
    c.p.nbins = 256;
    c.p.learning_rate = *r.pick(&[0.3, 0.1, 1.0, 0.05]);
    c.p.seed = r.below(100000) as u64;
    c.p.max_leaves = if r.chance(0.2) { r.us(2, 6) } else { usize::MAX };
    let kind = match i % 13 {
        12 => "colaudit",
        0..=2 => "random",
        3..=5 => "goss",
        6..=7 => "columns",
        8 => "ignored",
        9 => "identity",
        10 => "large",
        _ => "wide",
    };
    c.kind = kind.into();
    let pow_weights = |r: &mut Rng, d: &mut Data| {
        let mut k: Vec<usize> = (0..d.rows).collect();
        for i in (1..k.len()).rev() {
            k.swap(i, r.below(i + 1));
        }
        for i in 0..d.rows {
            d.w[i] = 2f64.powi(k[i] as i32);
        }
    };
    match kind {
        "random" | "identity" => {
            c.p.sample = 1;
            c.p.subsample = if kind == "identity" { 1.0 } else { *r.pick(&[0.5, 0.8, 0.3, 0.65, 0.9]) };
            c.p.iterations = if kind == "identity" { 8 } else { r.us(40, 160) };
            let n = c.d.rows.max(4);
            c.d = gen_fixed(r, n, c.p.logloss, &o);
            pow_weights(r, &mut c.d);
        }
        "goss" => {
            c.p.sample = 2;
            let n = if r.chance(0.7) { 16 } else { 8 };
            c.d = gen_fixed(r, n, c.p.logloss, &o);
            pow_weights(r, &mut c.d);
            let rates: &[f64] = if n == 16 { &[0.125, 0.25, 0.5, 0.0625, 0.0, 0.75, 1.0] } else { &[0.125, 0.25, 0.5] };
            c.p.other_rate = *r.pick(&[0.125, 0.25, 0.5, if n == 16 { 0.0625 } else { 0.5 }]);
            c.p.top_rate = *r.pick(rates);
            if c.p.top_rate + c.p.other_rate > 1.0 {
                c.p.top_rate = 0.5;
            }
            c.p.iterations = r.us(40, 120);
            if !c.p.logloss {
                for i in 0..n {
                    let u = r.f(0.5, 10.0) * if r.chance(0.5) { -1.0 } else { 1.0 };
                    c.d.y[i] = c.p.base_score + u * 16.0 / c.d.w[i];
                }
            }
        }
        "large" => {
            // two groups of records, whose numbers in a sample can be read off the root cover
            let n = *r.pick(&[60, 300, 1100, 2500, 5000, 8000]);
            let goss = r.chance(0.5);
            c.p = Params { iterations: r.us(3, 12), learning_rate: 1e-4, max_depth: r.us(1, 3), l2: 1.0, min_leaf_weight: 0.5, seed: c.p.seed, parallel: c.p.parallel, lossguide: c.p.lossguide, init_base: false, base_score: 0.0, logloss: false, sample: if goss { 2 } else { 1 }, ..Params::default() };
            let mut d = Data { rows: n, cols: 1, x: (0..n).map(|_| r.int(0, 20) as f64).collect(), y: vec![0.0; n], w: vec![1.0; n] };
            if goss {
                c.p.top_rate = r.f(0.01, 500.0 / n.max(1000) as f64);
                c.p.other_rate = *r.pick(&[0.5, 0.25, 0.125]);
                // other_rate * n / remainder below one
                c.p.top_rate = c.p.top_rate.min(0.45);
                let top = (c.p.top_rate * n as f64) as usize;
                let mut k: Vec<usize> = (0..n).collect();
                for i in (1..k.len()).rev() {
                    k.swap(i, r.below(i + 1));
                }
                for i in 0..n {
                    let s = if r.chance(0.5) { 1.0 } else { -1.0 };
                    d.y[i] = if k[i] < top { s * r.f(1e6, 2e6) } else { s * r.f(0.0, 1.0) };
                    d.w[i] = if k[i] < top { 1.0 } else { 512.0 };
                }
            } else {
                c.p.subsample = *r.pick(&[0.5, 0.8, 0.3, 0.05, 0.95]);
                let by = r.below(4);
                for i in 0..n {
                    d.y[i] = r.normal();
                    let second = match by { 0 => i >= n / 2, 1 => i % 2 == 1, 2 => i + 20 >= n, _ => d.x[i] > 10.0 };
                    d.w[i] = if second { 8192.0 } else { 1.0 };
                }
                if n > 1024 {
                    // keep the sums exact in single precision
                    d.w.iter_mut().for_each(|v| if *v > 1.0 { *v = 2048.0 });
                    let mut k = 0;
                    for i in 0..n {
                        if d.w[i] == 1.0 && k >= 2000 {
                            d.w[i] = 2048.0;
                        } else if d.w[i] == 1.0 {
                            k += 1;
                        }
                    }
                }
            }
            c.d = d;
        }
        "colaudit" => {
            // columns with different numbers of cut points
            let o = Opt { max_rows: 60, tail_rows: 60, max_cols: 12, big: 0, ..Opt::default() };
            let (p, n) = (c.p.clone(), r.us(10, 60));
            c.d = gen_fixed(r, n, p.logloss, &o);
            while c.d.cols < 2 {
                c.d = gen_fixed(r, n, p.logloss, &o);
            }
            c.p.iterations = r.us(3, 15);
            c.p.sample = 0;
            c.p.subsample = 1.0;
            c.p.colsample = (r.us(1, c.d.cols - 1) as f64 + 0.5) / c.d.cols as f64;
            c.p.nbins = *r.pick(&[256, 5, 12]);
        }
        "wide" => {
            // many columns, one of them by far the best
            let cols = *r.pick(&[7, 12, 20, 33, 64, 100]);
            let n = 64;
            let mut d = Data { rows: n, cols, x: (0..n * cols).map(|_| r.below(2) as f64).collect(), y: vec![0.0; n], w: vec![1.0; n] };
            let best = r.below(cols);
            for i in 0..n {
                d.set(i, best, ((i * 37 + 11) % n >= n / 2) as u8 as f64);
                d.y[i] = 10.0 * d.get(i, best) + (0..cols).map(|j| d.get(i, j) / cols as f64).sum::<f64>() + 0.1 * r.normal();
            }
            c.d = d;
            c.p = Params { iterations: r.us(60, 150), learning_rate: 1e-4, max_depth: *r.pick(&[1, 1, 4]), l2: 1.0, min_leaf_weight: 0.5, seed: c.p.seed, lossguide: c.p.lossguide, parallel: c.p.parallel, init_base: true, ..Params::default() };
            let a = r.us(1, cols - 1);
            c.p.colsample = (a as f64 + r.f(0.2, 0.8)) / cols as f64;
            c.setn("amount", a as f64);
            c.setn("best", best as f64);
        }
        "columns" => {
            let cols = r.us(2, 6);
            let n = 1usize << cols;
            let mut d = Data { rows: n, cols, x: vec![0.0; n * cols], y: vec![0.0; n], w: vec![1.0; n] };
            let coef: Vec<f64> = (0..cols).map(|_| r.f(1.0, 2.0) * if r.chance(0.5) { -1.0 } else { 1.0 }).collect();
            for i in 0..n {
                for j in 0..cols {
                    let b = (i >> j & 1) as f64;
                    d.set(i, j, b);
                    d.y[i] += b * coef[j];
                }
            }
            c.d = d;
            c.p = Params { iterations: r.us(40, 100), learning_rate: 0.05, max_depth: 7, l2: 0.0, min_leaf_weight: 0.5, seed: c.p.seed, lossguide: c.p.lossguide, parallel: c.p.parallel, init_base: true, ..Params::default() };
            let a = r.us(1, cols);
            c.p.colsample = if a == cols { 1.0 } else { (a as f64 + r.f(0.2, 0.8)) / cols as f64 };
            c.setn("amount", a as f64);
        }
        _ => {
            c.p.sample = 0;
            c.p.subsample = *r.pick(&[0.3, 0.7]);
            c.p.top_rate = 0.9;
            c.p.other_rate = 0.05;
            c.d = gen_fixed(r, 20, c.p.logloss, &o);
        }
    }
    if !matches!(kind, "columns" | "large" | "wide") {
        c.p.missing = f64::NAN;
        c.p.missing_branch = c.p.missing_branch && r.chance(0.5);
    }
    if c.p.logloss {
        c.p.base_score = 0.0;
    }
    c.p.terminate.clear();
    c.probes.clear();
    c
}
fn gen_fixed(r: &mut Rng, n: usize, ll: bool, o: &Opt) -> Data {
    let cols = r.us(1, o.max_cols);
    let mut x = vec![];
    for _ in 0..cols {
        x.extend(gen_col(r, n, &Opt { nonfinite: false, ..*o }));
    }
    let mut d = Data { rows: n, cols, x, y: vec![0.0; n], w: vec![1.0; n] };
    let ex = r.chance(0.5);
    d.y = gen_y(r, &d, ll, &Opt { exact: ex, ..*o });
    d
}

/// z-test with a wide limit: |X - N p| <= 9 sigma + 3
fn freq(what: &str, x: f64, n: f64, p: f64, var1: f64, ctx: &mut Ctx) -> Result<(), String> {
    let lim = 9.0 * (n * var1).sqrt() + 3.0;
    ctx.ratio("frequency z-test", (x - n * p).abs() / lim);
    if (x - n * p).abs() > lim {
        return Err(format!("frequency: {}: {} of {}, expected about {:.1}", what, x, n, n * p));
    }
    Ok(())
}
fn frequencies(sets: &[Vec<bool>], elig: &[Vec<bool>], p: f64, ctx: &mut Ctx) -> Result<(), String> {
    // sets[t][i] in sample; elig[t][i]: subject to random choice with probability p
    let (mut n, mut x) = (0.0, 0.0);
    let m = sets[0].len();
    for i in 0..m {
        let (mut ni, mut xi) = (0.0, 0.0);
        for t in 0..sets.len() {
            if elig[t][i] {
                ni += 1.0;
                xi += sets[t][i] as u8 as f64;
            }
        }
        freq(&format!("record {} sampled", i), xi, ni, p, p * (1.0 - p), ctx)?;
        n += ni;
        x += xi;
    }
    freq("records sampled", x, n, p, p * (1.0 - p), ctx)?;
    // successive trees and neighbouring records are independent
    let q = p * p;
    let v = q * (1.0 - q) + 2.0 * (p * q - q * q);
    let (mut n1, mut x1, mut n2, mut x2) = (0.0, 0.0, 0.0, 0.0);
    for t in 0..sets.len() {
        for i in 0..m {
            if t > 0 && elig[t][i] && elig[t - 1][i] {
                n1 += 1.0;
                x1 += (sets[t][i] && sets[t - 1][i]) as u8 as f64;
            }
            if i > 0 && elig[t][i] && elig[t][i - 1] {
                n2 += 1.0;
                x2 += (sets[t][i] && sets[t][i - 1]) as u8 as f64;
            }
        }
    }
    freq("records sampled in two successive trees", x1, n1, q, v, ctx)?;
    freq("neighbouring records sampled together", x2, n2, q, v, ctx)?;
    Ok(())
}

/// The tree must be the one grown with these effective weights.
fn audit_tree(c: &Case, t: &RTree, ti: usize, eff: &[f64], yhat: &[f64], nc: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let mut d = c.d.clone();
    d.w = eff.to_vec();
    let rows: Vec<usize> = (0..d.rows).filter(|i| eff[*i] > 0.0).collect();
    let a = Audit::tree(&c.p, &d, t, yhat, &rows, nc)?;
    let lr = c.p.learning_rate as f64;
    let grow = a.grow(&c.p, t, false);
    let alt = a.grow(&c.p, t, true);
    let mut is_miss = vec![false; t.nodes.len()];
    for nd in &t.nodes {
        if !nd.leaf && nd.ternary() {
            is_miss[nd.miss] = true;
        }
    }
    for (n, nd) in t.nodes.iter().enumerate() {
        let s = &a.st[n];
        if !((nd.h as f64 - s.h).abs() <= s.eh) {
            fail!("cover", "tree {} node {}: cover {} but the sampled records routed to it have {}", ti, n, nd.h, s.h);
        }
        let (g, h, eg, eh) = a.s(n);
        let by_treatment = is_miss[n] || (c.p.missing_branch && c.p.treatment == 2 && !nd.leaf);
        if let (Some((w, ew)), false) = (newton(&c.p, g, h, eg, eh), by_treatment) {
            let tol = ew * lr + 2.0 * U * (w * lr).abs() + 1e-40;
            if !((nd.w as f64 - w * lr).abs() <= tol) {
                fail!("weight", "tree {} node {}: weight {} but the Newton step of the sampled records is {}", ti, n, nd.w, w * lr);
            }
        }
        if !nd.leaf && !nd.ternary() {
            if let (Some(pg), Some(l), Some(r), Some(pa)) = (grow[n], grow[nd.left], grow[nd.right], alt[n]) {
                let e = pg.eg.max(pa.eg) + l.eg + r.eg + 8.0 * U * (l.gain.abs() + r.gain.abs() + pg.gain.abs());
                let ok = |q: f64| (nd.gain as f64 - (l.gain + r.gain - q)).abs() <= e;
                if !ok(pg.gain) && !ok(pa.gain) {
                    fail!("gain", "tree {} node {}: gain {} but the sampled records give {}", ti, n, nd.gain, l.gain + r.gain - pg.gain);
                }
            }
            ctx.label("split audited");
        }
    }
    Ok(())
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = c.fit();
    let m = RModel::of(&b)?;
    if m.trees.len() != c.p.iterations {
        fail!("trees", "{} trees for {} iterations", m.trees.len(), c.p.iterations);
    }
    let n = c.d.rows;
    let nc: Vec<usize> = (0..c.d.cols).map(|j| ncuts(&c.p, &c.d, j)).collect();
    match c.kind.as_str() {
        "ignored" => {
            let mut c2 = c.clone();
            c2.p.subsample = 1.0;
            c2.p.top_rate = 0.1;
            c2.p.other_rate = 0.2;
            let keys = ["subsample", "top_rate", "other_rate"];
            if let Some(d) = json_diff(&doc_without(&b, &keys), &doc_without(&c2.fit(), &keys), "") {
                fail!("ignored", "sampling rates change the model although no sampling method is set: {}", d);
            }
            Ok(n_splits(&m) > 0)
        }
        "columns" => {
            let cols = c.d.cols;
            let amount = c.num("amount") as usize;
            let mut sets = vec![];
            for (ti, t) in m.trees.iter().enumerate() {
                let fs = contrib::features(t);
                if fs.len() != amount {
                    fail!("columns", "tree {} splits on {:?}: {} columns, a sample has {} of {}", ti, fs, fs.len(), amount, cols);
                }
                sets.push((0..cols).map(|j| fs.contains(&j)).collect::<Vec<bool>>());
            }
            if amount < cols {
                let p = amount as f64 / cols as f64;
                for j in 0..cols {
                    let x = sets.iter().filter(|s| s[j]).count() as f64;
                    freq(&format!("column {} sampled", j), x, sets.len() as f64, p, p * (1.0 - p), ctx)?;
                    for k in 0..j {
                        let q = p * (amount as f64 - 1.0) / (cols as f64 - 1.0);
                        let x = sets.iter().filter(|s| s[j] && s[k]).count() as f64;
                        freq(&format!("columns {} and {} sampled together", j, k), x, sets.len() as f64, q, q * (1.0 - q), ctx)?;
                    }
                }
                let comb = {
                    let mut v = 1.0;
                    for k in 0..amount {
                        v = v * (cols - k) as f64 / (k + 1) as f64;
                    }
                    v
                };
                let same = (1..sets.len()).filter(|t| sets[*t] == sets[*t - 1]).count() as f64;
                let q = 1.0 / comb;
                freq("same columns in successive trees", same, (sets.len() - 1) as f64, q, q * (1.0 - q), ctx)?;
            }
            ctx.label("columns decoded");
            Ok(amount < cols)
        }
        "large" => {
            let (hi, goss) = (c.d.w.iter().cloned().fold(1.0, f64::max), c.p.sample == 2);
            let n1 = c.d.w.iter().filter(|w| **w == 1.0).count() as f64;
            let n2 = n as f64 - n1;
            let (top_n, rand_n) = ((c.p.top_rate * n as f64) as usize, (c.p.other_rate * n as f64) as usize);
            let (mut s1, mut s2) = (0.0, 0.0);
            let fact = (1.0 - c.p.top_rate) / c.p.other_rate;
            for (ti, t) in m.trees.iter().enumerate() {
                let h = t.nodes[0].h as f64;
                if goss {
                    let k = ((h - top_n as f64) / (hi * fact)).round();
                    let e = h - top_n as f64 - k * hi * fact;
                    let tol = 1e-6 * h + 0.01;
                    if e.abs() > tol || k < 0.0 || k > n2 {
                        fail!("sample", "tree {}: root cover {} is not the {} records of largest gradient and {} times a number of the others", ti, h, top_n, hi * fact);
                    }
                    s2 += k;
                } else {
                    let k2 = if hi > 1.0 { (h / hi).floor() } else { 0.0 };
                    let k1 = h - k2 * hi;
                    if k1 < 0.0 || k1 > n1 || k2 > n2 || k1.fract() != 0.0 {
                        fail!("sample", "tree {}: root cover {} is not that of a sample of {} records of weight 1 and {} of weight {}", ti, h, n1, n2, hi);
                    }
                    s1 += k1;
                    s2 += k2;
                }
            }
            let nt = m.trees.len() as f64;
            let p = if goss { rand_n as f64 / (n - top_n) as f64 } else { c.p.subsample as f64 };
            if !goss {
                freq("records of the first group sampled", s1, n1 * nt, p, p * (1.0 - p), ctx)?;
            }
            if hi > 1.0 {
                freq("records of the second group sampled", s2, n2 * nt, p, p * (1.0 - p), ctx)?;
            }
            ctx.label(if goss { "large GOSS sample" } else { "large random sample" });
            Ok(true)
        }
        "colaudit" => {
            let mut yh = YHat::new(&m, &c.d);
            let amount = (c.p.colsample * c.d.cols as f64).floor() as usize;
            for (ti, t) in m.trees.iter().enumerate() {
                let fs = contrib::features(t);
                if fs.len() > amount {
                    fail!("columns", "tree {} splits on {} columns, a sample has {}", ti, fs.len(), amount);
                }
                audit_tree(c, t, ti, &c.d.w, &yh.cur, &nc, ctx)?;
                yh.step(t, c.p.missing);
            }
            ctx.label("column samples audited");
            Ok(n_splits(&m) > 0)
        }
        "wide" => {
            let (amount, best, cols) = (c.num("amount"), c.num("best") as usize, c.d.cols as f64);
            let mut x = 0.0;
            for (ti, t) in m.trees.iter().enumerate() {
                let fs = contrib::features(t);
                if fs.len() as f64 > amount || fs.is_empty() {
                    fail!("columns", "tree {} splits on {} columns, a sample has {} of {}", ti, fs.len(), amount, cols);
                }
                x += fs.contains(&best) as u8 as f64;
            }
            let p = amount / cols;
            freq("trees with the best column", x, m.trees.len() as f64, p, p * (1.0 - p), ctx)?;
            ctx.label("wide data");
            Ok(true)
        }
        kind => {
            let mut yh = YHat::new(&m, &c.d);
            let goss = kind == "goss";
            let top_n = (c.p.top_rate * n as f64) as usize;
            let rand_n = (c.p.other_rate * n as f64) as usize;
            let fact = if goss { (1.0 - c.p.top_rate) / c.p.other_rate } else { 1.0 };
            let unit = if c.p.logloss { 0.25 } else { 1.0 };
            let mut sets = vec![];
            let mut elig = vec![];
            for (ti, t) in m.trees.iter().enumerate() {
                if c.p.logloss && ti > 0 {
                    break;
                }
                let mut top = vec![false; n];
                let mut decided = true;
                if goss {
                    let (g, _, _, _) = grad_hess(&c.p, &c.d, &yh.cur);
                    let mut ix: Vec<usize> = (0..n).collect();
                    ix.sort_by(|a, b| g[*b].abs().partial_cmp(&g[*a].abs()).unwrap());
                    if top_n > 0 && top_n < n {
                        let (a, b) = (g[ix[top_n - 1]].abs(), g[ix[top_n]].abs());
                        decided = a - b > 1e-4 * a;
                    }
                    ix[..top_n].iter().for_each(|i| top[*i] = true);
                }
                if decided {
                    let mut rest = t.nodes[0].h as f64 / unit;
                    for i in 0..n {
                        if top[i] {
                            rest -= c.d.w[i];
                        }
                    }
                    rest /= fact;
                    let mask = rest as i64;
                    let all: i64 = (0..n).filter(|i| !top[*i]).map(|i| c.d.w[i] as i64).sum();
                    if rest < 0.0 || mask as f64 != rest || mask & !all != 0 {
                        fail!("sample", "tree {} has root cover {}: not the {} sum of a sample (top records {:?}, factor {})", ti, t.nodes[0].h, kind, top, fact);
                    }
                    let inn: Vec<bool> = (0..n).map(|i| !top[i] && mask & (c.d.w[i] as i64) != 0).collect();
                    let eff: Vec<f64> = (0..n).map(|i| if top[i] { c.d.w[i] } else if inn[i] { c.d.w[i] * fact } else { 0.0 }).collect();
                    if kind == "identity" && inn.iter().any(|v| !v) {
                        fail!("identity", "subsample 1 left out records in tree {}", ti);
                    }
                    audit_tree(c, t, ti, &eff, &yh.cur, &nc, ctx)?;
                    sets.push(inn);
                    elig.push(top.iter().map(|t| !t).collect::<Vec<bool>>());
                    ctx.label("sample decoded");
                } else {
                    ctx.label("tree skipped: tie at the GOSS threshold");
                }
                yh.step(t, c.p.missing);
            }
            if !sets.is_empty() {
                let p = match kind {
                    "goss" => rand_n as f64 / (n - top_n) as f64,
                    _ => c.p.subsample as f64,
                };
                if goss && sets.len() < m.trees.len() && sets.len() > 1 {
                    // gaps: the successive-tree statistic is still over decoded trees
                    ctx.label("goss with gaps");
                }
                frequencies(&sets, &elig, p, ctx)?;
            }
            Ok(!sets.is_empty() && n_splits(&m) > 0)
        }
    }
}

pub fn valid(c: &Case) -> bool {
            if matches!(c.kind.as_str(), "large" | "wide" | "colaudit") {
                false // shrinking would break the construction
            } else if c.kind == "columns" {
                c.d.rows == 1 << c.d.cols && c.p.l2 == 0.0 && c.p.max_depth >= c.d.cols && c.p.iterations >= 2
                    && (c.p.colsample == 1.0) == (c.num("amount") as usize == c.d.cols)
                    && (c.p.colsample == 1.0 || (c.d.cols as f64 * c.p.colsample).floor() == c.num("amount"))
            } else {
                let pow = c.d.w.iter().all(|w| w.log2().fract() == 0.0 && *w <= 8388608.0);
                let mut s = c.d.w.clone();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                s.dedup();
                valid_common(c) && c.p.base_score.abs() < 1e3
                    && (c.kind == "ignored" || (pow && s.len() == c.d.rows))
                    && (c.kind != "goss" || (c.d.rows == 8 || c.d.rows == 16))
                    && (!c.p.logloss || c.p.base_score == 0.0)
            }
        }

fn main() {
    run(Spec {
        id: "C19",
        rule: "A case is a training problem whose weights are distinct powers of two (so each tree's root cover names the sampled records), under random, GOSS or full row sampling, or a full-factorial additive problem (so each tree's split features are exactly the sampled columns). Covers, weights and gains of all nodes are recomputed from the decoded sample, and inclusion frequencies are tested at 9 sigma; larger samples are decoded by groups of records, and trees grown under column sampling are audited over the sampled columns. Non-trivial: samples decoded and at least one split (columns: proper subsets). Distinct by hash of the whole case.",
        assumptions: &["GOSS trees whose gradient threshold is tied are skipped and counted", "for log loss only the first tree's sample is decodable", "the column sample has floor(columns x fraction) elements"],
        gen,
        check,
        quick: 24000,
        thorough: 240000,
        valid,
    })
}
