//! C30: a tree taken out of a model, used on its own, against the reference view of that tree.
use vh::synth::*;
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    if r.chance(0.5) {
        let mut c = gen_synth(r, 6, 6, 4);
        if r.chance(0.3) {
            let s = *r.pick(&[-9.0, 7.0, 1.25]);
            use_sentinel(&mut c, s);
        }
        return c;
    }
    let o = Opt { max_rows: 60, tail_rows: if i % 40 == 0 { 1500 } else { 200 }, max_cols: 6, big: 1, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.p.iterations = c.p.iterations.min(4);
    c.p.mono = gen_mono(r, c.d.cols);
    for _ in 0..r.below(8) {
        let p = gen_probe(r, &c.d);
        let s = c.p.missing;
        c.probes.push(p.into_iter().map(|v| if v.is_nan() { s } else { v }).collect());
    }
    c
}

#[cfg(feature = "internals")]
fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    use std::collections::HashMap;
    use vh::contrib::*;
    let b = model_of(c);
    let m = RModel::of(&b)?;
    let mut rows = c.probes.clone();
    if c.kind != "synthetic" {
        rows.extend((0..c.d.rows.min(5)).map(|i| c.d.row(i)));
    }
    let first = rows[0].clone();
    for t in m.trees.iter().take(2) {
        for nd in t.nodes.iter().filter(|n| !n.leaf).take(8) {
            for v in [nd.sv, next_down(nd.sv)] {
                let mut q = first.clone();
                q[nd.sf] = v;
                rows.push(q);
            }
        }
    }
    let k = c.d.cols;
    let d = Data::from_rows(&rows, k);
    let mx = d.matrix();
    let ms = m.missing;
    if b.trees.len() != m.trees.len() {
        fail!("trees", "{} trees, {} in the dump", b.trees.len(), m.trees.len());
    }
    let usable = m.covers_usable() && m.used().len() == m.trees.len();
    for (ti, (t, rt)) in b.trees.iter().zip(&m.trees).enumerate() {
        let leaves: Vec<usize> = rows.iter().map(|r| rt.leaf(r, ms)).collect();
        let want: Vec<f64> = leaves.iter().map(|l| rt.nodes[*l].w as f64).collect();
        for par in [false, true] {
            let got = t.predict(&mx, par, &ms);
            if !bits_eq(&got, &want) {
                fail!("tree prediction", "tree {} parallel {}: {:?} instead of {:?}", ti, par, got, want);
            }
        }
        for (i, r) in rows.iter().enumerate() {
            let got = t.predict_row_from_row_slice(r, &ms);
            if got.to_bits() != want[i].to_bits() {
                fail!("row prediction", "tree {} record {:?}: {} instead of {}", ti, r, got, want[i]);
            }
        }
        if t.predict_leaf_indices(&mx, &ms) != leaves {
            fail!("leaf indices", "tree {}: {:?} instead of {:?}", ti, t.predict_leaf_indices(&mx, &ms), leaves);
        }
        // importances of a single tree, added to what is there already
        let cnt = |kind: usize| -> HashMap<usize, (f64, usize)> {
            let mut h: HashMap<usize, (f64, usize)> = HashMap::new();
            h.insert(0, (2.0, 3));
            for nd in rt.nodes.iter().filter(|n| !n.leaf) {
                let e = h.entry(nd.sf).or_insert((0.0, 0));
                e.0 += [1.0, nd.gain as f64, nd.h as f64][kind];
                e.1 += 1;
            }
            h
        };
        for kind in 0..3 {
            let mut h: HashMap<usize, (f32, usize)> = HashMap::new();
            h.insert(0, (2.0, 3));
            match kind {
                0 => t.calculate_importance_weight(&mut h),
                1 => t.calculate_importance_gain(&mut h),
                _ => t.calculate_importance_cover(&mut h),
            }
            let w = cnt(kind);
            let tot: f64 = w.values().map(|v| v.0.abs()).sum();
            if h.len() != w.len() || w.iter().any(|(f, v)| h.get(f).map_or(true, |g| g.1 != v.1 || !close(g.0 as f64, v.0, 1e-5 * tot))) {
                fail!("tree importance", "tree {} kind {}: {:?} instead of {:?}", ti, kind, h, w);
            }
        }
        if !usable {
            continue;
        }
        // average weights below every node
        let sc = rt.nodes.iter().fold(0.0f64, |a, n| a.max((n.w as f64).abs())) + 1e-12;
        let dw = t.distribute_leaf_weights();
        if dw.len() != rt.nodes.len() {
            fail!("node averages", "{} for {} nodes", dw.len(), rt.nodes.len());
        }
        for n in 0..rt.nodes.len() {
            let w = avg(rt, n);
            if w.is_finite() && (!close(dw[n], w, 2e-5 * sc) || !close(t.get_average_leaf_weights(n), w, 2e-5 * sc)) {
                fail!("node averages", "tree {} node {}: {} and {} instead of {}", ti, n, dw[n], t.get_average_leaf_weights(n), w);
            }
        }
        // contributions of the single tree
        let one = RModel { base: 0.0, missing: ms, trees: vec![rt.clone()], pred_iter: None, best_iter: None, doc: serde_json::Value::Null };
        let mut bw = vec![0.0; (k + 1) * rows.len()];
        t.predict_contributions_weight(&mx, &mut bw, &ms);
        let mut ba = vec![0.0; (k + 1) * rows.len()];
        t.predict_contributions_average(&mx, &mut ba, &dw, &ms);
        for (i, row) in rows.iter().enumerate().take(8) {
            for mi in 0..6 {
                let mut g = vec![0.0; k + 1];
                match mi {
                    0 => t.predict_contributions_row_weight(row, &mut g, &ms),
                    1 => t.predict_contributions_row_average(row, &mut g, &dw, &ms),
                    2 => t.predict_contributions_row_branch_difference(row, &mut g, &ms),
                    3 => t.predict_contributions_row_midpoint_difference(row, &mut g, &ms),
                    4 => t.predict_contributions_row_mode_difference(row, &mut g, &ms),
                    _ => {
                        let lo = t.predict_contributions_row_probability_change(row, &mut g, &ms, 0.0);
                        if !close(lo, want[i], 1e-9 * sc) {
                            fail!("tree log odds", "tree {} record {:?}: {} instead of {}", ti, row, lo, want[i]);
                        }
                    }
                }
                let mut w = reference(&one, mi, row);
                if mi == 5 {
                    w[k] -= 0.5;
                }
                let tol = 4e-5 * sc * (rt.nodes.len() as f64).sqrt() + 1e-9;
                if (0..=k).any(|j| w[j].is_finite() && !close(g[j], w[j], tol)) {
                    fail!("tree contributions", "{} tree {} record {:?}: {:?} instead of {:?}", METHODS[mi], ti, row, g, w);
                }
                if mi < 2 {
                    let batch = if mi == 0 { &bw } else { &ba };
                    if !bits_eq(&batch[i * (k + 1)..(i + 1) * (k + 1)], &g) {
                        fail!("tree contributions", "{} tree {} record {:?}: batch differs from row", METHODS[mi], ti, row);
                    }
                }
            }
            // partial dependence of one value
            let f = i % k;
            let v = row[f];
            let got = t.value_partial_dependence(f, v, &ms);
            let w = game(rt, 0, row, ms, &|q| q == f);
            if w.is_finite() && !close(got, w, 4e-5 * sc) {
                fail!("tree partial dependence", "tree {} feature {} value {}: {} instead of {}", ti, f, v, got, w);
            }
        }
    }
    let splits = n_splits(&m);
    if m.trees.iter().any(|t| t.nodes.iter().any(|n| !n.leaf && n.ternary())) {
        ctx.label("missing-branch split");
    }
    if !usable {
        ctx.label("covers not used");
    }
    Ok(splits > 0)
}

/// Without the functions of a tree: the trees as the booster uses them one more at a time.
#[cfg(not(feature = "internals"))]
fn check(c: &Case, _: &mut Ctx) -> Result<bool, String> {
    let mut b = model_of(c);
    let m = RModel::of(&b)?;
    let d = Data::from_rows(&c.probes, c.d.cols);
    for n in 1..=m.trees.len() {
        b = b.set_prediction_iteration(Some(n - 1));
        let got = b.predict(&d.matrix(), c.p.parallel);
        for (g, r) in got.iter().zip(&c.probes) {
            let w = m.predict_row_n(r, n);
            if !close(*g, w, 1e-12 * (w.abs() + m.base.abs() + 1.0)) {
                fail!("tree prediction", "first {} trees, record {:?}: {} instead of {}", n, r, g, w);
            }
        }
    }
    Ok(n_splits(&m) > 0)
}

fn main() {
    run(Spec {
        id: "C30",
        rule: "A case is a generated training problem or synthetic ensemble with scoring records on, next to and far from split values; every function of every single tree is compared. Non-trivial: the trees contain at least one split. Distinct by hash of the whole case.",
        assumptions: &["averages, contributions and partial dependences are compared when every split has cover and its children share it out"],
        gen,
        check,
        quick: 30000,
        thorough: 600000,
        valid: valid_common,
    })
}
