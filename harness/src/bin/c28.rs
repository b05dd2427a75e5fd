//! C28: the data containers hand back exactly what was stored.
use forust_ml::data::{Matrix, RowMajorMatrix};
use vh::*;

fn gen(r: &mut Rng, i: usize) -> Case {
    let big = i % 500 == 3;
    let (rows, cols) = match r.below(6) {
        0 => (1, r.us(1, 40)),
        1 => (r.us(1, 40), 1),
        2 if big => (r.us(200, 3000), r.us(2, 40)),
        _ => (r.us(1, 12), r.us(1, 9)),
    };
    let kind = r.below(4);
    let x: Vec<f64> = (0..rows * cols)
        .map(|k| match kind {
            0 => k as f64,
            1 => -(k as f64) / 4.0 - 1.0,
            2 => r.normal() * 1e3,
            _ => *r.pick(&[0.0, 1.0, -1.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, 1e-300]),
        })
        .collect();
    let mut c = Case { kind: "containers".into(), ..Case::default() };
    c.d = Data { rows, cols, x, y: vec![0.0; rows], w: vec![1.0; rows] };
    // columns of a jagged matrix
    let long = r.chance(0.1);
    c.probes = (0..r.us(1, 9))
        .map(|k| (0..if r.chance(0.25) { 0 } else { r.us(1, if long { 300 } else { 7 }) }).map(|q| (k * 1000 + q) as f64).collect())
        .collect();
    c.setn("seed", r.below(1 << 30) as f64);
    c.extra = serde_json::json!({});
    c
}

#[cfg(feature = "internals")]
fn jagged(cols: &[Vec<f64>], pr: &mut Rng) -> Result<(), String> {
    use forust_ml::data::JaggedMatrix;
    let mut m = JaggedMatrix::from_vecs(cols);
    let total: usize = cols.iter().map(|c| c.len()).sum();
    if m.n_records != total || m.data.len() != total {
        fail!("jagged count", "{} columns of lengths {:?}: n_records {} for {} elements", cols.len(), cols.iter().map(|c| c.len()).collect::<Vec<_>>(), m.n_records, total);
    }
    if m.cols != cols.len() {
        fail!("jagged columns", "{} of {}", m.cols, cols.len());
    }
    let mut want = cols.to_vec();
    for step in 0..4 {
        for j in 0..cols.len() {
            if m.get_col(j) != want[j].as_slice() {
                fail!("jagged column", "column {} is {:?}, expected {:?} after {} writes", j, m.get_col(j), want[j], step);
            }
            if m.get_col_mut(j) != want[j].as_slice() {
                fail!("jagged column", "mutable column {} is not {:?}", j, want[j]);
            }
        }
        let t = serde_json::to_string(&m).map_err(|e| format!("jagged json: {}", e))?;
        let b: JaggedMatrix<f64> = serde_json::from_str(&t).map_err(|e| format!("jagged json: {}", e))?;
        if b.cols != m.cols || b.n_records != m.n_records || (0..cols.len()).any(|j| b.get_col(j) != m.get_col(j)) {
            fail!("jagged json", "{} differs after reading it back", t);
        }
        let j = pr.below(cols.len());
        for (k, v) in m.get_col_mut(j).iter_mut().enumerate() {
            *v = -(k as f64) - 0.5 - step as f64;
            want[j][k] = *v;
        }
    }
    let e: JaggedMatrix<f64> = JaggedMatrix::new();
    let d: JaggedMatrix<f64> = JaggedMatrix::default();
    if e.cols != 0 || e.n_records != 0 || !e.data.is_empty() || !e.ends.is_empty() || d.cols != 0 || d.n_records != 0 || !d.data.is_empty() {
        fail!("jagged empty", "a new jagged matrix is not empty");
    }
    Ok(())
}
#[cfg(feature = "internals")]
fn jagged_bins(d: &Data) -> Result<(), String> {
    let b = forust_ml::binning::bin_matrix(&d.matrix(), &d.w, 6, f64::NAN).map_err(|e| format!("binning: {}", e))?;
    let total: usize = (0..d.cols).map(|j| b.cuts.get_col(j).len()).sum();
    if b.cuts.cols != d.cols || b.cuts.n_records != total || b.cuts.data.len() != total {
        fail!("jagged count", "cuts of {} columns: cols {}, n_records {} for {} elements", d.cols, b.cuts.cols, b.cuts.n_records, total);
    }
    Ok(())
}
#[cfg(not(feature = "internals"))]
fn jagged(_: &[Vec<f64>], _: &mut Rng) -> Result<(), String> {
    Ok(())
}
#[cfg(not(feature = "internals"))]
fn jagged_bins(_: &Data) -> Result<(), String> {
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    let d = &c.d;
    let (n, k) = (d.rows, d.cols);
    let mut pr = Rng::new(c.num("seed") as u64, "c28", 0);
    let m = Matrix::new(&d.x, n, k);
    if m.rows != n || m.cols != k || m.data.len() != n * k || m.index != (0..n).collect::<Vec<_>>() {
        fail!("matrix shape", "{}x{} became {}x{} with {} indices", n, k, m.rows, m.cols, m.index.len());
    }
    let all = n * k <= 400;
    let rows: Vec<usize> = if all { (0..n).collect() } else { (0..20).map(|_| pr.below(n)).chain([0, n - 1]).collect() };
    for &i in &rows {
        let want: Vec<f64> = (0..k).map(|j| d.x[j * n + i]).collect();
        for j in 0..k {
            if *m.get(i, j) != want[j] {
                fail!("matrix get", "({}, {}) of {}x{} is {} instead of {}", i, j, n, k, m.get(i, j), want[j]);
            }
        }
        if m.get_row(i) != want {
            fail!("matrix row", "row {} of {}x{} is {:?} instead of {:?}", i, n, k, m.get_row(i), want);
        }
        if m.get_row_iter(i).copied().collect::<Vec<_>>() != want {
            fail!("matrix row", "row iterator {} of {}x{} differs from {:?}", i, n, k, want);
        }
    }
    for j in 0..k {
        if m.get_col(j) != &d.x[j * n..(j + 1) * n] {
            fail!("matrix column", "column {} of {}x{}", j, n, k);
        }
        let a = pr.below(n + 1);
        let b = a + pr.below(n + 1 - a);
        if m.get_col_slice(j, a, b) != &d.x[j * n + a..j * n + b] {
            fail!("matrix slice", "column {} rows {}..{} of {}x{}", j, a, b, n, k);
        }
    }
    if all {
        let t = format!("{}", m);
        let got: Vec<Vec<f64>> = t.lines().map(|l| l.split(' ').map(|v| v.parse().unwrap_or(f64::NAN)).collect()).collect();
        let want: Vec<Vec<f64>> = (0..n).map(|i| d.row(i)).collect();
        if got != want {
            fail!("matrix text", "{:?} for {:?}", t, want);
        }
    }
    // row major, grown by appending
    let start = pr.below(n + 1);
    let flat = |a: usize, b: usize| -> Vec<f64> { (a..b).flat_map(|i| d.row(i)).collect() };
    let mut rm = RowMajorMatrix::new(flat(0, start), start, k);
    let mut at = start;
    let mut appends = 0;
    while at < n {
        let to = (at + pr.below(4)).min(n);
        rm.append_row(flat(at, to));
        at = to;
        appends += 1;
        if rm.rows != at || rm.cols != k || rm.data.len() != at * k {
            fail!("row-major shape", "{}x{} with {} elements, expected {}x{}", rm.rows, rm.cols, rm.data.len(), at, k);
        }
    }
    for &i in &rows {
        for j in 0..k {
            if *rm.get(i, j) != d.get(i, j) {
                fail!("row-major get", "({}, {}) of {}x{} is {} instead of {}", i, j, n, k, rm.get(i, j), d.get(i, j));
            }
        }
    }
    if d.x.iter().all(|v| v.is_finite()) {
        let t = serde_json::to_string(&rm).map_err(|e| format!("row-major json: {}", e))?;
        let b: RowMajorMatrix<f64> = serde_json::from_str(&t).map_err(|e| format!("row-major json: {}", e))?;
        if b.rows != rm.rows || b.cols != rm.cols || rows.iter().any(|&i| (0..k).any(|j| b.get(i, j) != rm.get(i, j))) {
            fail!("row-major json", "differs after reading it back");
        }
    }
    if !c.probes.is_empty() {
        jagged(&c.probes, &mut pr)?;
        if c.probes.iter().any(|p| p.is_empty()) {
            ctx.label("jagged: empty column");
        }
    }
    if d.x.iter().all(|v| v.is_finite()) {
        jagged_bins(d)?;
    }
    if n == 1 {
        ctx.label("single row");
    }
    if appends > 1 {
        ctx.label("several appends");
    }
    Ok(n > 1 && k > 1 && c.probes.len() > 1)
}

fn valid(c: &Case) -> bool {
    c.d.rows > 0 && c.d.cols > 0 && c.d.x.len() == c.d.rows * c.d.cols
}

fn main() {
    run(Spec {
        id: "C28",
        rule: "A case is a matrix (1 to 3000 rows, 1 to 40 columns, distinct or repeated or extreme elements), a way of cutting it into appended blocks, and 1 to 9 jagged columns (0 to 300 elements), written to at random. Non-trivial: more than one row, column and jagged column. Distinct by hash of the whole case.",
        assumptions: &["indices within the container"],
        gen,
        check,
        quick: 300000,
        thorough: 10000000,
        valid,
    })
}
