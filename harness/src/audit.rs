//! Training audit: recompute, from the raw training data and the dumped trees alone, the gradient
//! and hessian sums of every node, with bounds on the single-precision error of the trainer.
use crate::case::*;
use crate::model::*;

pub const U: f64 = 5.960464477539063e-8; // 2^-24

#[derive(Clone, Debug, Default)]
pub struct Stat {
    pub g: f64,
    pub h: f64,
    pub a: f64,
    pub eg: f64,
    pub eh: f64,
    pub rows: Vec<usize>,
    e_g: f64,
    e_h: f64,
}

pub struct Audit {
    pub st: Vec<Stat>,
    pub exact: bool,
    pub g: Vec<f64>,
    pub h: Vec<f64>,
    pub parent: Vec<Option<usize>>,
}

pub fn grad_hess(p: &Params, d: &Data, yhat: &[f64]) -> (Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>) {
    let n = d.rows;
    let (mut g, mut h, mut eg, mut eh) = (vec![0.0; n], vec![0.0; n], vec![0.0; n], vec![0.0; n]);
    for i in 0..n {
        let (y, w, f) = (d.y[i], d.w[i], yhat[i]);
        if p.logloss {
            let q = 1.0 / (1.0 + (-f).exp());
            g[i] = (((q - y) * w) as f32) as f64;
            h[i] = ((q * (1.0 - q) * w) as f32) as f64;
            let dy = 8e-16 * (f.abs() + 1.0) * w;
            eg[i] = 2.0 * U * g[i].abs() + dy + 1e-44;
            eh[i] = 2.0 * U * h[i].abs() + dy + 1e-44;
        } else {
            let v = (f - y) * w;
            g[i] = (v as f32) as f64;
            h[i] = (w as f32) as f64;
            eg[i] = 2.0 * U * g[i].abs() + 8e-16 * (f.abs() + y.abs()) * w + 1e-44;
            eh[i] = 0.0;
            if h[i] != w {
                eh[i] = U * w;
            }
        }
    }
    (g, h, eg, eh)
}

pub fn dyadic_exact(v: &[f64]) -> bool {
    // all values multiples of 2^-k with total magnitude < 2^(23-k), so every partial sum is exact in f32
    let total: f64 = v.iter().map(|x| x.abs()).sum();
    (0..=10).any(|k| {
        let f = (1u64 << k) as f64;
        v.iter().all(|x| x * f == (x * f).round()) && total < (1u64 << (23 - k)) as f64
    })
}

/// Number of cut points a feature can have at most.
pub fn ncuts(p: &Params, d: &Data, j: usize) -> usize {
    let mut v: Vec<f64> = d.col(j).iter().copied().filter(|v| !is_missing(*v, p.missing)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v.len().min(p.nbins as usize + 1) + 1
}

pub fn is_exact(p: &Params, d: &Data, yhat: &[f64]) -> bool {
    if p.logloss {
        return false;
    }
    let (g, h, _, _) = grad_hess(p, d, yhat);
    for i in 0..d.rows {
        // the f64 gradient itself must be exact: check lossless
        if (yhat[i] - d.y[i]) * d.w[i] != g[i] || d.w[i] != h[i] {
            return false;
        }
        let k = yhat[i] * 1024.0;
        if k != k.round() || yhat[i].abs() > 8192.0 {
            return false;
        }
    }
    dyadic_exact(&g) && dyadic_exact(&h)
}

impl Audit {
    /// rows: the records the tree was grown on.
    pub fn tree(p: &Params, d: &Data, t: &RTree, yhat: &[f64], rows: &[usize], nc: &[usize]) -> Result<Audit, String> {
        let (g, h, eg, eh) = grad_hess(p, d, yhat);
        let exact = is_exact(p, d, yhat);
        let m = t.nodes.len();
        let mut st: Vec<Stat> = vec![Stat::default(); m];
        let mut parent = vec![None; m];
        for (i, nd) in t.nodes.iter().enumerate() {
            for c in nd.children() {
                if c >= m {
                    return Err(format!("structure: child index {} out of range in node {}", c, i));
                }
                parent[c] = Some(i);
            }
        }
        for &i in rows {
            let row = d.row(i);
            for n in t.path(&row, p.missing) {
                let s = &mut st[n];
                s.g += g[i];
                s.h += h[i];
                s.a += g[i].abs();
                s.eg += eg[i];
                s.eh += eh[i];
                s.rows.push(i);
            }
        }
        let (aroot, hroot) = (st[0].a, st[0].h);
        for n in 0..m {
            // parents come before children in the dump (checked by C05); recompute by walking up otherwise
            let (e_g, e_h) = match parent[n] {
                None => (U * st[n].g.abs() + 1e-15 * aroot, U * st[n].h + 1e-15 * hroot),
                Some(pn) => {
                    let nb = nc.get(t.nodes[pn].sf).copied().unwrap_or(p.nbins as usize + 2) as f64;
                    let dd = t.nodes[pn].depth as f64;
                    (
                        st[pn].e_g + (nb + 6.0) * U * st[pn].a + (2.0 * dd + 4.0) * U * aroot,
                        st[pn].e_h + (nb + 6.0) * U * st[pn].h + (2.0 * dd + 4.0) * U * hroot,
                    )
                }
            };
            st[n].e_g = e_g;
            st[n].e_h = e_h;
        }
        for s in st.iter_mut() {
            if exact {
                s.eg = 0.0;
                s.eh = 0.0;
            } else {
                s.eg += s.e_g;
                s.eh += s.e_h;
            }
        }
        Ok(Audit { st, exact, g, h, parent })
    }
}

pub fn soft(g: f64, l1: f64) -> f64 {
    if g > l1 {
        g - l1
    } else if g < -l1 {
        g + l1
    } else {
        0.0
    }
}

/// Newton weight of a node and its error bound; None when ill-conditioned.
pub fn newton(p: &Params, g: f64, h: f64, eg: f64, eh: f64) -> Option<(f64, f64)> {
    let (l1, l2, mds) = (p.l1 as f64, p.l2 as f64, p.max_delta_step as f64);
    let den = h + l2;
    if !(den > 4.0 * eh) || den < 1e-20 {
        return None;
    }
    let w = -soft(g, l1) / den;
    if !w.is_finite() || w.abs() > 1e25 {
        return None;
    }
    let ew = (eg + w.abs() * eh + 2.0 * U * (g.abs() + l1)) / (den - eh) + 6.0 * U * w.abs() + 1e-37;
    let wc = if mds > 0.0 && w.abs() > mds { mds.copysign(w) } else { w };
    Some((wc, ew))
}

/// Second-order loss reduction of assigning weight w to a node, and its error bound.
pub fn score(p: &Params, g: f64, h: f64, eg: f64, eh: f64, w: f64, ew: f64) -> (f64, f64) {
    let d = h + p.l2 as f64;
    let v = -(2.0 * g * w + d * w * w);
    let e = 2.0 * w.abs() * eg
        + w * w * eh
        + 2.0 * (g + d * w).abs() * ew
        + d * ew * ew
        + 8.0 * U * (2.0 * (g * w).abs() + d * w * w)
        + 2.0 * ew * eg
        + 1e-36;
    (v, e)
}

/// Predictions after each tree for the training data, following the dump.
pub struct YHat<'a> {
    pub d: &'a Data,
    pub cur: Vec<f64>,
}
impl<'a> YHat<'a> {
    pub fn new(m: &RModel, d: &'a Data) -> Self {
        YHat { d, cur: vec![m.base; d.rows] }
    }
    pub fn step(&mut self, t: &RTree, missing: f64) {
        for i in 0..self.d.rows {
            let row = self.d.row(i);
            self.cur[i] += t.nodes[t.leaf(&row, missing)].w as f64;
        }
    }
}

/// The weight a node had while the tree was grown (before learning-rate scaling and before the
/// AverageLeafWeight clean-up), recomputed top-down, with error bounds and monotone bounds.
#[derive(Clone, Copy, Debug)]
pub struct Grow {
    pub w: f64,
    pub ew: f64,
    pub lo: f64,
    pub hi: f64,
    pub eb: f64,
    /// loss reduction credited to the node while growing
    pub gain: f64,
    pub eg: f64,
    /// the node is, or lies below, a missing child
    pub in_missing: bool,
    pub is_missing_child: bool,
}
pub fn clip(w: f64, ew: f64, lo: f64, hi: f64, eb: f64) -> (f64, f64) {
    // clipping is 1-Lipschitz in (w, lo, hi)
    let v = w.max(lo).min(hi);
    (v, if lo == f64::NEG_INFINITY && hi == f64::INFINITY { ew } else { ew.max(eb) + 2.0 * U * v.abs() })
}
pub fn constraint_of(p: &Params, f: usize) -> i8 {
    p.mono.as_ref().and_then(|m| m.iter().find(|e| e.0 == f).map(|e| e.1)).unwrap_or(0)
}
/// Weight of a missing child before clean-up. None: cannot be decided within rounding.
#[allow(clippy::too_many_arguments)]
pub fn missing_weight(
    p: &Params,
    node: &Grow,
    g: (f64, f64, f64, f64), // missing g h eg eh
    node_s: (f64, f64, f64, f64),
    l: (f64, f64, f64, f64), // w ew h eh
    r: (f64, f64, f64, f64),
) -> Option<(f64, f64)> {
    match p.treatment {
        0 => {
            let zero_g = g.0 == 0.0 && g.2 == 0.0;
            let zero_h = g.1 == 0.0 && g.3 == 0.0;
            if zero_g || zero_h {
                Some((node.w, node.ew))
            } else if g.0.abs() > g.2 && g.1 > g.3 {
                let (w, ew) = newton(p, g.0, g.1, g.2, g.3)?;
                Some(clip(w, ew, node.lo, node.hi, node.eb))
            } else {
                None
            }
        }
        1 => {
            let (w, ew) = newton(p, node_s.0, node_s.1, node_s.2, node_s.3)?;
            let (w, ew) = clip(w, ew, node.lo, node.hi, node.eb);
            Some((w, ew + 8.0 * U * w.abs()))
        }
        _ => {
            let den = l.2 + r.2;
            if !(den > 4.0 * (l.3 + r.3)) {
                return None;
            }
            let w = (l.0 * l.2 + r.0 * r.2) / den;
            let e = ((l.0 - w).abs() * l.3 + (r.0 - w).abs() * r.3) / (den - l.3 - r.3)
                + l.1.max(r.1)
                + 8.0 * U * (l.0.abs() * l.2 + r.0.abs() * r.2) / den;
            Some((w, e))
        }
    }
}
impl Audit {
    pub fn s(&self, n: usize) -> (f64, f64, f64, f64) {
        (self.st[n].g, self.st[n].h, self.st[n].eg, self.st[n].eh)
    }
    /// Growth weights of all nodes; None where rounding leaves them undecided.
    /// `root_alt`: use the gain at the root's own weight instead of G^2/(H+l2).
    pub fn grow(&self, p: &Params, t: &RTree, root_alt: bool) -> Vec<Option<Grow>> {
        let m = t.nodes.len();
        let mut out: Vec<Option<Grow>> = vec![None; m];
        let (g, h, eg, eh) = self.s(0);
        if let Some((w, ew)) = newton(p, g, h, eg, eh) {
            let (gain, ge) = if root_alt {
                score(p, g, h, eg, eh, w, ew)
            } else {
                let q = Params { l1: 0.0, max_delta_step: 0.0, ..p.clone() };
                match newton(&q, g, h, eg, eh) {
                    Some((w0, e0)) => score(p, g, h, eg, eh, w0, e0),
                    None => (0.0, f64::INFINITY),
                }
            };
            out[0] = Some(Grow { w, ew, lo: f64::NEG_INFINITY, hi: f64::INFINITY, eb: 0.0, gain, eg: ge, in_missing: false, is_missing_child: false });
        }
        let mut stack = vec![0usize];
        while let Some(n) = stack.pop() {
            let nd = &t.nodes[n];
            if nd.leaf {
                continue;
            }
            stack.extend(nd.children());
            let Some(pg) = out[n] else { continue };
            let mut side = [None, None];
            for (k, c) in [nd.left, nd.right].into_iter().enumerate() {
                let s = self.s(c);
                side[k] = newton(p, s.0, s.1, s.2, s.3).map(|(w, ew)| clip(w, ew, pg.lo, pg.hi, pg.eb));
            }
            let (Some((mut wl, mut el)), Some((mut wr, mut er))) = (side[0], side[1]) else { continue };
            if p.force_bound && p.missing_branch {
                let (a, b, e) = bound(pg.w, wl, wr, pg.ew.max(el).max(er));
                wl = a;
                wr = b;
                el = e;
                er = e;
            }
            let mid = (wl + wr) / 2.0;
            let eb = pg.eb.max((el + er) / 2.0 + U * (wl.abs() + wr.abs()));
            let bounds = match constraint_of(p, nd.sf) {
                0 => [(pg.lo, pg.hi, pg.eb), (pg.lo, pg.hi, pg.eb)],
                1 => [(pg.lo, mid, eb), (mid, pg.hi, eb)],
                _ => [(mid, pg.hi, eb), (pg.lo, mid, eb)],
            };
            for (k, (c, w, ew)) in [(nd.left, wl, el), (nd.right, wr, er)].into_iter().enumerate() {
                let s = self.s(c);
                let (gain, ge) = score(p, s.0, s.1, s.2, s.3, w, ew);
                out[c] = Some(Grow { w, ew, lo: bounds[k].0, hi: bounds[k].1, eb: bounds[k].2, gain, eg: ge, in_missing: pg.in_missing, is_missing_child: false });
            }
            if nd.ternary() {
                let s = if self.st[nd.miss].rows.is_empty() { (0.0, 0.0, 0.0, 0.0) } else { self.s(nd.miss) };
                let (sl, sr) = (self.s(nd.left), self.s(nd.right));
                let mw = missing_weight(p, &pg, s, self.s(n), (wl, el, sl.1, sl.3), (wr, er, sr.1, sr.3));
                if let Some((w, ew)) = mw {
                    let (gain, ge) = score(p, s.0, s.1, s.2, s.3, w, ew);
                    // the assigned weight is the parent's own
                    let (w, ew) = if p.treatment == 1 { (pg.w, pg.ew) } else { (w, ew) };
                    out[nd.miss] =
                        Some(Grow { w, ew, lo: pg.lo, hi: pg.hi, eb: pg.eb, gain, eg: ge, in_missing: true, is_missing_child: true });
                }
            }
        }
        out
    }
}
/// Children weights forced to enclose the parent weight (min/max form); the error bound covers
/// the discontinuity when the children's order cannot be decided.
fn bound(parent: f64, l: f64, r: f64, e: f64) -> (f64, f64, f64) {
    if (l - r).abs() <= 2.0 * e {
        // either child may be the one moved
        let d = (parent - l).abs().max((parent - r).abs());
        return (l, r, e + d);
    }
    if l > r {
        (l.max(parent), r.min(parent), e)
    } else {
        (l.min(parent), r.max(parent), e)
    }
}
