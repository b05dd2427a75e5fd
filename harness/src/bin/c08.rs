//! C08: every split is the best admissible one and its reported gain is right; leaves have none.
use vh::audit::*;
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let mut o = Opt { max_rows: 45, tail_rows: if i % 80 == 0 { 600 } else { 120 }, max_cols: 4, big: 0, ..Opt::default() };
    let large = i % 300 == 7;
    if large {
        o.big = 3;
        o.exact = r.chance(0.7);
    }
    let mut c = gen_case(r, &o);
    c.probes.clear();
    c.p.iterations = *r.pick(&[1, 1, 2, 3]);
    if large {
        c.p.iterations = 1;
        c.p.max_depth = c.p.max_depth.min(8);
    }
    if r.chance(0.3) {
        c.p.mono = gen_mono(r, c.d.cols);
    }
    if r.chance(0.3) {
        c.p.gamma = *r.pick(&[0.01, 0.1, 0.5, 1.0, 5.0]);
    }
    c
}

type S4 = (f64, f64, f64, f64);
fn add(a: S4, b: S4) -> S4 {
    (a.0 + b.0, a.1 + b.1, a.2 + b.2, a.3 + b.3)
}

/// A candidate split: gain, error, surely admissible; None: undecidable.
struct Cand {
    gain: f64,
    err: f64,
    sure: bool,
}
fn side(p: &Params, pg: &Grow, s: S4) -> Option<(f64, f64, f64, f64)> {
    let (w, ew) = newton(p, s.0, s.1, s.2, s.3)?;
    let (w, ew) = clip(w, ew, pg.lo, pg.hi, pg.eb);
    let (g, e) = score(p, s.0, s.1, s.2, s.3, w, ew);
    Some((w, ew, g, e))
}
fn ordered(con: i8, wl: f64, el: f64, wr: f64, er: f64) -> (bool, bool) {
    // (surely respects, surely violates)
    match con {
        0 => (true, false),
        1 => (wr - wl > el + er, wr - wl < -(el + er)),
        _ => (wl - wr > el + er, wl - wr < -(el + er)),
    }
}

#[allow(clippy::too_many_arguments)]
fn candidate(p: &Params, pg: &Grow, node: S4, l: S4, r: S4, ms: S4, n_missing: usize, con: i8) -> Option<Cand> {
    let mlw = p.min_leaf_weight as f64;
    let okh = |s: &S4| s.1 - s.3 >= mlw * (1.0 + 1e-7) && s.1 > 0.0;
    if p.missing_branch {
        let (wl, el, gl, xl) = side(p, pg, l)?;
        let (wr, er, gr, xr) = side(p, pg, r)?;
        let (mw, me) = missing_weight(p, pg, ms, node, (wl, el, l.1, l.3), (wr, er, r.1, r.3))?;
        let (gm, xm) = score(p, ms.0, ms.1, ms.2, ms.3, mw, me);
        let (ok, _) = ordered(con, wl, el, wr, er);
        let sum = gl + gr + gm;
        return Some(Cand {
            gain: sum - pg.gain,
            err: xl + xr + xm + pg.eg + 6.0 * U * (gl.abs() + gr.abs() + gm.abs() + pg.gain.abs()),
            sure: ok && okh(&l) && okh(&r),
        });
    }
    let before = p.allow_missing_splits || (okh(&l) && okh(&r));
    let fin = |a: S4, b: S4| -> Option<(f64, f64, bool)> {
        let (wl, el, gl, xl) = side(p, pg, a)?;
        let (wr, er, gr, xr) = side(p, pg, b)?;
        let (ok, _) = ordered(con, wl, el, wr, er);
        Some((gl + gr, xl + xr + 6.0 * U * (gl.abs() + gr.abs() + pg.gain.abs()), ok && okh(&a) && okh(&b)))
    };
    if n_missing == 0 || (ms.0 == 0.0 && ms.1 == 0.0) {
        let (g, e, ok) = fin(l, r)?;
        return Some(Cand { gain: g - pg.gain, err: e + pg.eg, sure: ok && before });
    }
    // missing goes where the loss reduction is larger
    let a = fin(add(l, ms), r);
    let b = fin(l, add(r, ms));
    match (a, b) {
        (Some(a), Some(b)) => {
            let e = a.1.max(b.1);
            // with a constraint the direction choice uses culled gains; only count when both are fine
            if con != 0 || (a.0 - b.0).abs() <= a.1 + b.1 {
                Some(Cand { gain: a.0.min(b.0) - pg.gain, err: e + pg.eg, sure: a.2 && b.2 && before })
            } else if a.0 > b.0 {
                Some(Cand { gain: a.0 - pg.gain, err: a.1 + pg.eg, sure: a.2 && before })
            } else {
                Some(Cand { gain: b.0 - pg.gain, err: b.1 + pg.eg, sure: b.2 && before })
            }
        }
        _ => None,
    }
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let p = &c.p;
    let b = c.fit();
    let m = RModel::of(&b)?;
    if c.d.rows >= 1000 {
        ctx.label("a thousand or more records");
    }
    if c.d.cols >= 10 {
        ctx.label("ten or more features");
    }
    let cuts: Vec<Vec<f64>> = match internals::bins(p, &c.d) {
        Some(Ok(b)) => b.cuts,
        Some(Err(e)) => fail!("binning", "{}", e),
        None => match (0..c.d.cols).map(|j| internals::ref_cuts(p, &c.d, j)).collect::<Option<Vec<_>>>() {
            Some(k) => k,
            None => return Ok(false),
        },
    };
    let nc: Vec<usize> = (0..c.d.cols).map(|j| ncuts(p, &c.d, j)).collect();
    if nc.iter().any(|k| *k > 500) {
        ctx.label("more than 500 candidate cuts of one feature");
    }
    let ncmax = *nc.iter().max().unwrap() as f64;
    let all: Vec<usize> = (0..c.d.rows).collect();
    let mut yh = YHat::new(&m, &c.d);
    let gamma = p.gamma as f64;
    let per = if p.missing_branch { 2 } else { 1 };
    for (ti, t) in m.trees.iter().enumerate() {
        let a = Audit::tree(p, &c.d, t, &yh.cur, &all, &nc)?;
        let grow = a.grow(p, t, false);
        let alt = a.grow(p, t, true);
        let leaves = t.nodes.iter().filter(|n| n.leaf).count();
        let limited = leaves.saturating_add(per) > p.max_leaves;
        let (aroot, hroot) = (a.st[0].a, a.st[0].h);
        let parents = &a.parent;
        for (n, nd) in t.nodes.iter().enumerate() {
            let Some(pg) = grow[n] else {
                ctx.label("node skipped: ill-conditioned");
                continue;
            };
            // inside a missing branch the AssignToParent weight is not the node's own Newton step
            if p.missing_branch && p.treatment == 1 && pg.in_missing {
                ctx.label("node skipped: below an assigned missing branch");
                continue;
            }
            let node = a.s(n);
            let rows = &a.st[n].rows;
            // per-candidate rounding error of the single-precision histogram sums
            let dd = nd.depth as f64 + 1.0;
            let (cg, ch) = if a.exact {
                (0.0, 0.0)
            } else {
                (
                    (ncmax + 8.0) * U * a.st[n].a + (2.0 * dd + 4.0) * U * aroot,
                    (ncmax + 8.0) * U * a.st[n].h + (2.0 * dd + 4.0) * U * hroot,
                )
            };
            let stat = |f: &dyn Fn(usize) -> bool| -> (S4, usize) {
                let (mut g, mut h, mut k) = (0.0, 0.0, 0);
                for &i in rows {
                    if f(i) {
                        g += a.g[i];
                        h += a.h[i];
                        k += 1;
                    }
                }
                ((g, h, node.2 + cg, node.3 + ch), k)
            };
            // best sure candidate
            let splittable_missing = !pg.is_missing_child || {
                let pn = parents[n].unwrap();
                p.allow_missing_splits && !p.terminate.contains(&t.nodes[pn].sf) && !rows.is_empty()
            };
            let could_split = !nd.leaf || (nd.depth < p.max_depth && !limited && splittable_missing);
            let mut best: Option<(f64, f64, usize, f64)> = None;
            let mut ncand = 0u64;
            if could_split {
                for j in 0..c.d.cols {
                    let con = constraint_of(p, j);
                    let (ms, nm) = stat(&|i| is_missing(c.d.get(i, j), p.missing));
                    let ms = if nm == 0 { (0.0, 0.0, 0.0, 0.0) } else { ms };
                    if nm == 0 && !a.exact && c.d.col(j).iter().any(|v| is_missing(*v, p.missing)) && p.missing_branch && p.treatment == 0 {
                        // a residue of the histogram subtraction may act as missing weight
                        continue;
                    }
                    // sums of the records below each value, in f64 (exact where the error bound is zero)
                    let mut v: Vec<(f64, f64, f64)> =
                        rows.iter().map(|&i| (c.d.get(i, j), a.g[i], a.h[i])).filter(|x| !is_missing(x.0, p.missing)).collect();
                    if v.is_empty() {
                        continue;
                    }
                    v.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
                    let mut pre = vec![(0.0, 0.0)];
                    for x in &v {
                        let (g, h) = pre[pre.len() - 1];
                        pre.push((g + x.1, h + x.2));
                    }
                    let tot = pre[v.len()];
                    for &cut in &cuts[j][..cuts[j].len() - 1] {
                        let k = v.partition_point(|x| x.0 < cut);
                        let (eg, eh) = (node.2 + cg, node.3 + ch);
                        let l = (pre[k].0, pre[k].1, eg, eh);
                        let r = if k == v.len() { (0.0, 0.0, eg, eh) } else { (tot.0 - pre[k].0, tot.1 - pre[k].1, eg, eh) };
                        if let Some(k) = candidate(p, &pg, node, l, r, ms, nm, con) {
                            ncand += 1;
                            if k.sure && k.gain.is_finite() {
                                let low = k.gain - k.err;
                                if best.is_none() || low > best.unwrap().0 {
                                    best = Some((low, k.gain, j, cut));
                                }
                            }
                        }
                    }
                }
            }
            ctx.add("candidate splits evaluated", ncand);
            if nd.leaf {
                if could_split {
                    if let Some((low, gain, j, cut)) = best {
                        if low > gamma * (1.0 + 1e-6) + 1e-30 {
                            fail!("unsplit", "tree {} node {} (depth {}, {} records, {} leaves) was left a leaf although splitting feature {} at {} reduces the loss by {} (certain at least {}), gamma {}",
                                ti, n, nd.depth, rows.len(), leaves, j, cut, gain, low, gamma);
                        }
                    }
                    ctx.label("leaf checked");
                }
                continue;
            }
            // the chosen split, from its real partition
            let (sl, sr) = (a.s(nd.left), a.s(nd.right));
            let (Some(gl), Some(gr)) = (grow[nd.left], grow[nd.right]) else {
                ctx.label("split skipped: ill-conditioned");
                continue;
            };
            let (mut sum, mut err) = (gl.gain + gr.gain, gl.eg + gr.eg);
            let mut mag = gl.gain.abs() + gr.gain.abs();
            if nd.ternary() {
                let Some(gm) = grow[nd.miss] else {
                    ctx.label("split skipped: missing weight undecided");
                    continue;
                };
                sum += gm.gain;
                err += gm.eg;
                mag += gm.gain.abs();
            }
            let _ = (sl, sr);
            let want = sum - pg.gain;
            let tol = err + pg.eg + 6.0 * U * (mag + pg.gain.abs());
            let rep = nd.gain as f64;
            let mut ok = (rep - want).abs() <= tol;
            let mut used = (want, tol);
            if !ok && n == 0 && (p.l1 > 0.0 || p.max_delta_step > 0.0) {
                if let Some(ag) = alt[0] {
                    let w2 = sum - ag.gain;
                    let t2 = err + ag.eg + 6.0 * U * (mag + ag.gain.abs());
                    ok = (rep - w2).abs() <= t2;
                    used = (w2, t2);
                }
            }
            ctx.ratio("gain", (rep - used.0).abs() / used.1.max(1e-300));
            if !ok {
                fail!("gain", "tree {} node {} (feature {} < {}): reported gain {} but the split reduces the loss by {} (tolerance {:e})", ti, n, nd.sf, nd.sv, rep, want, tol);
            }
            if !(used.0 + used.1 > gamma) || !(rep > gamma * (1.0 - 1e-5) - 1e-30 - 4.0 * U * (mag + pg.gain.abs())) {
                fail!("gamma", "tree {} node {}: split kept with gain {} (recomputed {}) although gamma is {}", ti, n, rep, used.0, gamma);
            }
            if let Some((low, gain, j, cut)) = best {
                if !(used.0 + used.1 >= low) {
                    fail!("optimal", "tree {} node {} splits feature {} at {} with gain {}, but feature {} at {} is admissible with gain {} (certain at least {})",
                        ti, n, nd.sf, nd.sv, used.0, j, cut, gain, low);
                }
            }
            if !cuts[nd.sf].contains(&nd.sv) {
                fail!("cut", "tree {} node {}: split value {} is not a cut point of feature {}", ti, n, nd.sv, nd.sf);
            }
            ctx.label(if a.exact { "split checked exactly" } else { "split checked within rounding" });
        }
        yh.step(t, p.missing);
    }
    Ok(n_splits(&m) > 0)
}

fn main() {
    run(Spec {
        id: "C08",
        rule: "A case is a generated training problem; every node of every tree is compared with a brute-force enumeration of all (feature, cut, missing direction) candidates over the records in it. Non-trivial: at least one split. A competing candidate counts only if it is admissible and better beyond the single-precision error bound (zero for integer data).",
        assumptions: &[
            "candidate cut points are those of bin_matrix (decided by C04)",
            "the root's own loss may be taken with or without l1 / max_delta_step",
            "splits below a missing child whose weight was assigned from its parent are not judged",
        ],
        gen,
        check,
        quick: 150000,
        thorough: 3000000,
        valid: valid_common,
    })
}
