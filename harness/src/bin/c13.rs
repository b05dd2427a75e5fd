//! C13: every contribution method against a brute-force / direct reference.
use vh::contrib::*;
use vh::synth::*;
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    if i % 40 == 3 {
        return gen_chain(r);
    }
    if r.chance(0.6) {
        let mut c = gen_synth(r, 6, 6, 3);
        if r.chance(0.2) {
            let s = *r.pick(&[-9.0, 7.0, 1.25]);
            use_sentinel(&mut c, s);
        }
        return c;
    }
    let o = Opt { max_rows: 60, tail_rows: if i % 40 == 0 { 1500 } else { 200 }, max_cols: 6, big: 1, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.p.iterations = c.p.iterations.min(4);
    c.p.mono = gen_mono(r, c.d.cols);
    if r.chance(0.15) {
        c.p.sample = 1;
        c.p.subsample = 0.7;
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.01) {
        c.p.iterations = 0;
    }
    if r.chance(0.3) {
        c.setn("pi", r.below(c.p.iterations + 1) as f64);
    }
    c.probes.truncate(6);
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = model_of(c);
    let m = RModel::of(&b)?;
    if !m.covers_usable() {
        ctx.label("skipped: a split without cover, or not shared out by its children");
        return Ok(false);
    }
    let mut rows = c.probes.clone();
    if c.kind != "synthetic" {
        for i in 0..c.d.rows.min(3) {
            rows.push(c.d.row(i));
        }
    }
    let cols = c.d.cols;
    let d = Data::from_rows(&rows, cols);
    let mx = d.matrix();
    let sc = scale(&m) + 1e-12;
    let maxlen = m.used().iter().flat_map(|t| t.nodes.iter().map(|n| n.depth + 1)).max().unwrap_or(1) as f64;
    for mi in 0..7 {
        if mi == 5 && !c.p.logloss {
            continue;
        }
        let name = METHODS[mi];
        let got = b.predict_contributions(&mx, method(mi), c.p.parallel);
        for (i, row) in rows.iter().enumerate() {
            let g = &got[i * (cols + 1)..(i + 1) * (cols + 1)];
            let want = reference(&m, mi, row);
            let tol = match mi {
                0 => 1e-11 * sc * maxlen,
                5 => 1e-11 * maxlen * (1.0 + m.used().len() as f64),
                2 | 4 => 1e-6 * sc * maxlen,
                3 => 1e-6 * sc * maxlen,
                1 => 4e-6 * sc,
                _ => 1e-5 * sc,
            };
            for j in 0..=cols {
                ctx.ratio(name, (g[j] - want[j]).abs() / tol);
                if !close(g[j], want[j], tol) {
                    fail!(name, "record {:?}: {} contributes {}, reference gives {}", row, if j < cols { format!("feature {}", j) } else { "bias".into() }, g[j], want[j]);
                }
            }
        }
    }
    let splits: usize = m.used().iter().map(|t| t.nodes.iter().filter(|n| !n.leaf).count()).sum();
    if m.used().iter().any(|t| features(t).len() >= 7) {
        ctx.label("seven or more features in one tree");
    }
    if m.used().iter().any(|t| features(t).len() >= 3) {
        ctx.label("three or more features in one tree");
    }
    if m.used().iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.ternary() && t.nodes[n.miss].h == 0.0)) {
        ctx.label("empty missing leaf");
    }
    if m.used().iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.ternary() && !t.nodes[n.miss].leaf)) {
        ctx.label("split below a missing branch");
    }
    if m.used().iter().any(|t| t.nodes.iter().any(|n| !n.leaf && t.nodes[n.left].h == t.nodes[n.right].h)) {
        ctx.label("equal covers");
    }
    Ok(splits > 0)
}

fn main() {
    run(Spec {
        id: "C13",
        rule: "A case is a synthetic random ensemble (repeated features, missing branches, empty missing leaves, equal covers) loaded through JSON or a trained model, plus scoring records; each method's output per feature and bias is compared with an independent reference, for Shapley by enumerating all coalitions of the tree's features. Non-trivial: the trees in use contain at least one split. Distinct by hash of the whole case.",
        assumptions: &["children's covers add up to their parent's up to single precision (checked by C06 for trained models)"],
        gen,
        check,
        quick: 80000,
        thorough: 1600000,
        valid: valid_common,
    })
}
