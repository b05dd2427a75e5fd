//! C07: weights of root, left and right nodes are learning rate x regularised Newton steps.
use vh::audit::*;
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 80, tail_rows: if i % 60 == 0 { 3000 } else { 400 }, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.probes.clear();
    if r.chance(0.4) {
        c.p.l1 = *r.pick(&[0.05, 0.3, 1.0, 4.0]);
    }
    if r.chance(0.4) {
        c.p.max_delta_step = *r.pick(&[0.02, 0.1, 0.5, 1.5]);
    }
    if r.chance(0.15) {
        c.p.mono = Some((0..c.d.cols).map(|j| (j, 0)).collect());
    }
    c
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = c.fit();
    let m = RModel::of(&b)?;
    let nc: Vec<usize> = (0..c.d.cols).map(|j| ncuts(&c.p, &c.d, j)).collect();
    let all: Vec<usize> = (0..c.d.rows).collect();
    let mut yh = YHat::new(&m, &c.d);
    let lr = c.p.learning_rate as f64;
    let avg = c.p.missing_branch && c.p.treatment == 2;
    for (ti, t) in m.trees.iter().enumerate() {
        let a = Audit::tree(&c.p, &c.d, t, &yh.cur, &all, &nc)?;
        let mut is_miss = vec![false; t.nodes.len()];
        for nd in &t.nodes {
            if !nd.leaf && nd.ternary() {
                is_miss[nd.miss] = true;
            }
        }
        for (n, nd) in t.nodes.iter().enumerate() {
            if is_miss[n] || (avg && !nd.leaf) {
                continue;
            }
            let (g, h, eg, eh) = a.s(n);
            let Some((w, ew)) = newton(&c.p, g, h, eg, eh) else {
                ctx.label("node skipped: ill-conditioned");
                continue;
            };
            let want = w * lr;
            let tol = ew * lr + 2.0 * U * want.abs() + 1e-40;
            let err = (nd.w as f64 - want).abs();
            ctx.ratio("weight", err / tol);
            if !(err <= tol) {
                fail!("weight", "tree {} node {} (leaf {}): weight {} but the Newton step of its {} records (G={}, H={}) times the learning rate is {} (tolerance {:e})",
                    ti, n, nd.leaf, nd.w, a.st[n].rows.len(), g, h, want, tol);
            }
            if c.p.max_delta_step > 0.0 && w.abs() == c.p.max_delta_step as f64 {
                ctx.label("node limited by max_delta_step");
            }
            if c.p.l1 > 0.0 && w == 0.0 && g != 0.0 {
                ctx.label("node zeroed by l1");
            }
        }
        yh.step(t, c.p.missing);
    }
    if m.trees.len() > 1 {
        ctx.label("several trees");
    }
    Ok(n_splits(&m) > 0)
}

fn main() {
    run(Spec {
        id: "C07",
        rule: "A case is a generated training problem; every root, left and right node of every tree is compared with the Newton step recomputed from the raw records at the predictions of the preceding trees. Non-trivial: at least one split. Tolerances are worst-case single-precision bounds (exact data: a few ulps).",
        assumptions: &["single-precision error bounds in harness/src/audit.rs", "nodes whose denominator is within rounding of zero (l2 = 0) are skipped and counted"],
        gen,
        check,
        quick: 80000,
        thorough: 1600000,
        valid: valid_common,
    })
}
