//! C06: node covers are the hessian sums of the training records that reach the node.
use vh::audit::*;
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 80, tail_rows: if i % 50 == 0 { 4000 } else { 500 }, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.probes.clear();
    c.p.mono = gen_mono(r, c.d.cols);
    if i % 50 == 0 {
        c.p.nbins = *r.pick(&[256, 500, 1000]);
    }
    c
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = c.fit();
    let m = RModel::of(&b)?;
    let nc: Vec<usize> = (0..c.d.cols).map(|j| ncuts(&c.p, &c.d, j)).collect();
    let all: Vec<usize> = (0..c.d.rows).collect();
    let mut yh = YHat::new(&m, &c.d);
    let mut splits = 0;
    for (ti, t) in m.trees.iter().enumerate() {
        let a = Audit::tree(&c.p, &c.d, t, &yh.cur, &all, &nc)?;
        if a.exact {
            ctx.label("tree checked exactly");
        } else {
            ctx.label("tree checked within rounding");
        }
        for (n, nd) in t.nodes.iter().enumerate() {
            let s = &a.st[n];
            let cover = nd.h as f64;
            let err = (cover - s.h).abs();
            let tol = s.eh;
            if tol > 0.0 && err.is_finite() {
                ctx.ratio("cover", err / tol);
            }
            if !(err <= tol) {
                fail!(
                    "cover",
                    "tree {} node {} (depth {}): reported cover {} but the {} training records routed to it have hessian sum {} (tolerance {:e})",
                    ti, n, nd.depth, nd.h, s.rows.len(), s.h, tol
                );
            }
            if !nd.leaf {
                splits += 1;
                let sum: f64 = nd.children().iter().map(|k| t.nodes[*k].h as f64).sum();
                let ctol: f64 = nd.children().iter().map(|k| a.st[*k].eh).sum::<f64>() + s.eh;
                if !((sum - cover).abs() <= ctol) {
                    fail!("additive", "tree {} node {}: children covers add up to {} but its cover is {}", ti, n, sum, cover);
                }
                for k in [nd.left, nd.right] {
                    if !(t.nodes[k].h >= c.p.min_leaf_weight) {
                        fail!(
                            "min_leaf_weight",
                            "tree {} node {}: child {} has cover {} below min_leaf_weight {}",
                            ti, n, k, t.nodes[k].h, c.p.min_leaf_weight
                        );
                    }
                    // the records really there carry that weight too
                    if !(a.st[k].h + a.st[k].eh >= c.p.min_leaf_weight as f64 * (1.0 - 1e-6)) {
                        fail!("min_leaf_weight", "tree {} node {}: child {} holds records of weight {} only", ti, n, k, a.st[k].h);
                    }
                }
                if nd.children().iter().any(|k| a.st[*k].rows.is_empty()) {
                    ctx.label("split with an empty child");
                }
                if a.st[n].rows.iter().any(|i| is_missing(c.d.get(*i, nd.sf), c.p.missing)) {
                    ctx.label("split of a feature with missing values");
                }
            }
        }
        yh.step(t, c.p.missing);
    }
    if c.d.rows > 300 {
        ctx.label("more than 300 rows");
    }
    Ok(splits > 0)
}

fn main() {
    run(Spec {
        id: "C06",
        rule: "A case is a generated training problem (both objectives, both missing strategies, ties, zero weights, sentinels, up to 4000 rows). Every node of every tree is recomputed from the raw records. Non-trivial: at least one split. Integer-valued squared-loss trees are compared exactly, others within a worst-case single-precision bound.",
        assumptions: &["single-precision error bounds in harness/src/audit.rs"],
        gen,
        check,
        quick: 70000,
        thorough: 1400000,
        valid: valid_common,
    })
}
