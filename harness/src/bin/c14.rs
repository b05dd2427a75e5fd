//! C14: partial dependence against the recursive definition.
use vh::contrib::*;
use vh::synth::*;
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    let mut c = if r.chance(0.5) {
        let mut c = gen_synth(r, 6, 7, 5);
        if r.chance(0.2) {
            let s = *r.pick(&[-9.0, 7.0, 1.25]);
            use_sentinel(&mut c, s);
        }
        c
    } else {
        let o = Opt { max_rows: 60, tail_rows: if i % 40 == 0 { 2000 } else { 300 }, ..Opt::default() };
        let mut c = gen_case(r, &o);
        c.p.mono = gen_mono(r, c.d.cols);
        if r.chance(0.15) {
            c.p.sample = 1;
            c.p.subsample = 0.7;
            c.p.l2 = c.p.l2.max(0.5);
        }
        if r.chance(0.02) {
            c.p.iterations = 0;
        }
        if r.chance(0.3) {
            c.setn("pi", r.below(c.p.iterations + 1) as f64);
        }
        c
    };
    c.setn("extra_feature", c.d.cols as f64 + r.below(3) as f64);
    c
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let mut b = model_of(c);
    let m = RModel::of(&b)?;
    if !m.covers_usable() {
        ctx.label("skipped: a split without cover, or not shared out by its children");
        return Ok(false);
    }
    let sc = scale(&m) + 1e-12;
    let mut feats: Vec<usize> = (0..c.d.cols).collect();
    feats.push(c.num("extra_feature") as usize);
    let mut moved = false;
    for f in feats {
        let mut vals: Vec<f64> = vec![m.missing, f64::NEG_INFINITY, f64::INFINITY, 0.0];
        if f < c.d.cols {
            vals.extend(c.probes.iter().map(|p| p[f]));
        }
        for t in m.used() {
            for n in &t.nodes {
                if !n.leaf && n.sf == f && vals.len() < 60 {
                    vals.extend([n.sv, next_up(n.sv), next_down(n.sv)]);
                }
            }
        }
        // NaN is refused where it is not the missing value
        if !m.missing.is_nan() {
            vals.retain(|v| !v.is_nan());
        }
        let used = m.used().iter().any(|t| features(t).contains(&f));
        let mut first: Option<f64> = None;
        for v in vals {
            let row = vec![v; f + 1];
            let want = m.base + m.used().iter().map(|t| game(t, 0, &row, m.missing, &|k| k == f)).sum::<f64>();
            let mut got = [0.0; 2];
            for par in [false, true] {
                b.parallel = par;
                got[par as usize] = b.value_partial_dependence(f, v);
            }
            for g in got {
                ctx.ratio("partial dependence", (g - want).abs() / (2e-6 * sc));
                if !close(g, want, 2e-6 * sc) {
                    fail!("value", "feature {} at {}: partial dependence {} but the cover-weighted expectation is {}", f, v, g, want);
                }
            }
            if !close(got[0], got[1], 1e-12 * sc) {
                fail!("parallel", "feature {} at {}: {} serial, {} parallel", f, v, got[0], got[1]);
            }
            match first {
                None => first = Some(got[0]),
                Some(x) => {
                    if !used && x.to_bits() != got[0].to_bits() {
                        fail!("unused", "feature {} is not used but its partial dependence is {} and {}", f, x, got[0]);
                    }
                    if used && (x - got[0]).abs() > 1e-3 * sc {
                        moved = true;
                    }
                }
            }
        }
    }
    if m.used().len() < m.trees.len() {
        ctx.label("truncated prediction_iteration");
    }
    if m.used().iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.ternary())) {
        ctx.label("missing-branch split");
    }
    if m.used().iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.depth > 1)) {
        ctx.label("depth over two");
    }
    Ok(moved)
}

fn main() {
    run(Spec {
        id: "C14",
        rule: "A case is a synthetic random ensemble loaded through JSON or a trained model; partial dependence is evaluated for every feature (and one no tree knows) at the missing sentinel, infinities, probe values and on and next to every split value, serial and parallel. Non-trivial: some partial dependence varies by more than 1e-3 of the weight scale. Distinct by hash of the whole case.",
        assumptions: &["proportions are computed in single precision by the library; tolerance 2e-6 of the sum of largest absolute weights"],
        gen,
        check,
        quick: 36000,
        thorough: 800000,
        valid: valid_common,
    })
}
