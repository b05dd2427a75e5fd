//! C05: trees are well formed, respect the growth limits; truncation and policy relations.
use vh::audit::*;
use vh::*;

pub fn gen(r: &mut Rng, i: usize) -> Case {
    let o = Opt { max_rows: 70, tail_rows: if i % 60 == 0 { 1500 } else { 300 }, ..Opt::default() };
    let mut c = gen_case(r, &o);
    c.probes.clear();
    c.p.mono = gen_mono(r, c.d.cols);
    c.p.force_bound = r.chance(0.1);
    c.p.max_leaves = if r.chance(0.6) { r.us(1, 9) } else { usize::MAX };
    c.p.max_depth = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 7, 20, usize::MAX - 1]);
    if r.chance(0.6) {
        c.p.gamma = 0.0;
        c.p.min_leaf_weight = if c.p.l2 > 0.0 { *r.pick(&[0.0, 0.01, 0.1, 1.0]) } else { *r.pick(&[0.01, 0.1, 1.0]) };
    }
    if r.chance(0.2) {
        c.p.sample = 1 + r.below(2) as u8;
        c.p.subsample = *r.pick(&[0.5, 0.8]);
        c.p.l2 = c.p.l2.max(0.5);
    }
    if r.chance(0.15) {
        c.p.colsample = *r.pick(&[0.4, 0.7]);
    }
    c
}

/// Is the tree below `n` of `t` obtained from `u` below `v` by cutting some branches?
/// Returns the number of cut nodes, or what differs.
fn pruned(t: &RTree, n: usize, u: &RTree, v: usize, weights: bool, max_depth: usize, why: &mut Vec<(usize, usize)>) -> Result<(), String> {
    let (a, b) = (&t.nodes[n], &u.nodes[v]);
    if (weights && a.w.to_bits() != b.w.to_bits()) || a.h.to_bits() != b.h.to_bits() {
        return Err(format!("node {} (weight {} cover {}) is not node {} (weight {} cover {})", n, a.w, a.h, v, b.w, b.h));
    }
    if a.leaf {
        if !b.leaf {
            why.push((n, a.depth));
        }
        return Ok(());
    }
    if b.leaf || a.sf != b.sf || a.sv.to_bits() != b.sv.to_bits() || a.gain.to_bits() != b.gain.to_bits() || a.ternary() != b.ternary() {
        return Err(format!("node {} splits feature {} at {}, the unlimited tree's node {} (leaf {}) splits feature {} at {}", n, a.sf, a.sv, v, b.leaf, b.sf, b.sv));
    }
    if !a.ternary() && (a.miss == a.left) != (b.miss == b.left) {
        return Err(format!("node {} sends missing the other way than in the unlimited tree", n));
    }
    for (x, y) in a.children().into_iter().zip(b.children()) {
        pruned(t, x, u, y, weights, max_depth, why)?;
    }
    Ok(())
}

fn well_formed(c: &Case, ti: usize, t: &RTree) -> Result<usize, String> {
    let n = t.nodes.len();
    if n == 0 {
        fail!("structure", "tree {} has no nodes", ti);
    }
    let mut parents = vec![0; n];
    let mut leaves = 0;
    for (i, nd) in t.nodes.iter().enumerate() {
        if nd.num != i {
            fail!("structure", "tree {}: node at position {} is numbered {}", ti, i, nd.num);
        }
        if nd.leaf {
            leaves += 1;
            continue;
        }
        if nd.left == nd.right {
            fail!("structure", "tree {} node {}: left and right child are the same node", ti, i);
        }
        if nd.ternary() != c.p.missing_branch {
            fail!("structure", "tree {} node {}: separate missing child = {} although create_missing_branch = {}", ti, i, nd.ternary(), c.p.missing_branch);
        }
        if nd.sf >= c.d.cols {
            fail!("structure", "tree {} node {}: split feature {} of {} columns", ti, i, nd.sf, c.d.cols);
        }
        for k in nd.children() {
            if k >= n || k == 0 {
                fail!("structure", "tree {} node {}: child {} does not exist", ti, i, k);
            }
            parents[k] += 1;
            if t.nodes[k].depth != nd.depth + 1 {
                fail!("structure", "tree {} node {} at depth {}: child {} has depth {}", ti, i, nd.depth, k, t.nodes[k].depth);
            }
        }
    }
    if t.nodes[0].depth != 0 {
        fail!("structure", "tree {}: root has depth {}", ti, t.nodes[0].depth);
    }
    for (i, k) in parents.iter().enumerate().skip(1) {
        if *k != 1 {
            fail!("structure", "tree {}: node {} has {} parents", ti, i, k);
        }
    }
    if let Some(nd) = t.nodes.iter().find(|nd| nd.depth > c.p.max_depth) {
        fail!("max_depth", "tree {}: node {} at depth {} with max_depth {}", ti, nd.num, nd.depth, c.p.max_depth);
    }
    if leaves > c.p.max_leaves.max(1) {
        fail!("max_leaves", "tree {} has {} leaves with max_leaves {}", ti, leaves, c.p.max_leaves);
    }
    Ok(leaves)
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let b = c.fit();
    let m = RModel::of(&b)?;
    if m.trees.len() != c.p.iterations {
        fail!("iterations", "{} trees after {} iterations", m.trees.len(), c.p.iterations);
    }
    let mut leaves = vec![];
    for (ti, t) in m.trees.iter().enumerate() {
        leaves.push(well_formed(c, ti, t)?);
    }
    // every left and right branch is reached by training records
    if c.p.sample == 0 {
        let nc: Vec<usize> = (0..c.d.cols).map(|j| ncuts(&c.p, &c.d, j)).collect();
        let all: Vec<usize> = (0..c.d.rows).collect();
        let mut yh = YHat::new(&m, &c.d);
        for (ti, t) in m.trees.iter().enumerate() {
            let a = Audit::tree(&c.p, &c.d, t, &yh.cur, &all, &nc)?;
            for (n, nd) in t.nodes.iter().enumerate() {
                if nd.leaf {
                    continue;
                }
                for k in [nd.left, nd.right] {
                    if a.st[k].rows.is_empty() {
                        fail!("unreachable", "tree {} node {} (feature {} < {}): no training record reaches child {}", ti, n, nd.sf, nd.sv, k);
                    }
                }
            }
            yh.step(t, c.p.missing);
        }
    }
    // the same problem without limits
    let mut big = c.clone();
    big.p.max_leaves = usize::MAX;
    big.p.max_depth = usize::MAX - 1;
    big.p.iterations = 1;
    big.p.lossguide = false;
    let mb = RModel::of(&big.fit())?;
    let weights = !(c.p.missing_branch && c.p.treatment == 2);
    let mut cut = vec![];
    if let Err(e) = pruned(&m.trees[0], 0, &mb.trees[0], 0, weights, c.p.max_depth, &mut cut) {
        fail!("truncation", "the first tree is not a truncation of the unlimited one: {}", e);
    }
    let per = if c.p.missing_branch { 2 } else { 1 };
    let leaf_limited = leaves[0].saturating_add(per) > c.p.max_leaves;
    for (n, dep) in &cut {
        if *dep < c.p.max_depth && !leaf_limited {
            fail!("truncation", "node {} at depth {} is a leaf although it could be split within max_depth {} and max_leaves {} ({} leaves)", n, dep, c.p.max_depth, c.p.max_leaves, leaves[0]);
        }
    }
    // depth-wise growth: nodes closer to the root first
    if !c.p.lossguide && leaf_limited {
        let deepest = m.trees[0].nodes.iter().filter(|nd| !nd.leaf).map(|nd| nd.depth).max().unwrap_or(0);
        if let Some((n, dep)) = cut.iter().find(|(_, dep)| *dep < deepest) {
            fail!("depth-wise", "node {} at depth {} could be split and is a leaf, although a node at depth {} was split", n, dep, deepest);
        }
    }
    if !cut.is_empty() {
        ctx.label(if leaf_limited { "cut by max_leaves" } else { "cut by max_depth" });
    }
    // growth policies without a leaf limit give the same predictor
    let mut q = c.clone();
    q.p.max_leaves = usize::MAX;
    q.p.lossguide = false;
    let dw = RModel::of(&q.fit())?;
    q.p.lossguide = true;
    let lg = RModel::of(&q.fit())?;
    for ti in 0..dw.trees.len().max(lg.trees.len()) {
        if ti >= dw.trees.len() || ti >= lg.trees.len() || canon(&dw.trees[ti], 0) != canon(&lg.trees[ti], 0) {
            fail!("policy", "tree {} differs between DepthWise and LossGuide without a leaf limit", ti);
        }
    }
    if c.p.lossguide && c.p.max_leaves < 20 && !cut.is_empty() {
        ctx.label("loss guided with leaf limit");
    }
    Ok(n_splits(&dw) > 0)
}

fn main() {
    run(Spec {
        id: "C05",
        rule: "A case is a generated training problem with max_depth, max_leaves, growth policy, missing handling and sampling drawn together. Non-trivial: the problem has at least one split when grown without limits. Every tree is checked for structure and limits, the first tree against the unlimited tree (must be a truncation of it, cut only where a limit forces it), the order of depth-wise growth under a leaf limit, and both growth policies against each other.",
        assumptions: &["left/right reachability is judged on training records and only for models without row sampling"],
        gen,
        check,
        quick: 36000,
        thorough: 720000,
        valid: valid_common,
    })
}
