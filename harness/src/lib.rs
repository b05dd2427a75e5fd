pub mod audit;
pub mod case;
pub mod contrib;
pub mod gen;
pub mod internals;
pub mod metrics;
pub mod model;
pub mod rng;
pub mod runner;
pub mod setters;
pub mod shrink;
pub mod synth;
pub use case::*;
pub use gen::*;
pub use model::*;
pub use rng::Rng;
pub use runner::*;

/// |a-b| <= tol, with equal infinities and NaN pairs accepted.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol
}
pub fn bits_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
#[macro_export]
macro_rules! fail {
    ($tag:expr, $($a:tt)*) => { return Err(format!("{}: {}", $tag, format!($($a)*))) };
}

/// Canonical text of the subtree below node n: independent of node numbering.
pub fn canon(t: &RTree, n: usize) -> String {
    let nd = &t.nodes[n];
    if nd.leaf {
        format!("({:08x} {:08x})", nd.w.to_bits(), nd.h.to_bits())
    } else {
        let m = if nd.miss == nd.left {
            "L".to_string()
        } else if nd.miss == nd.right {
            "R".to_string()
        } else {
            canon(t, nd.miss)
        };
        format!(
            "[{:08x} {:08x} f{} {:016x} {:08x} {} {} {}]",
            nd.w.to_bits(),
            nd.h.to_bits(),
            nd.sf,
            nd.sv.to_bits(),
            nd.gain.to_bits(),
            m,
            canon(t, nd.left),
            canon(t, nd.right)
        )
    }
}
/// The dump of a booster as a JSON value without the given keys.
pub fn doc_without(b: &forust_ml::GradientBooster, keys: &[&str]) -> serde_json::Value {
    let mut v: serde_json::Value = serde_json::from_str(&b.json_dump().expect("json_dump")).expect("dump is JSON");
    for k in keys {
        v.as_object_mut().unwrap().remove(*k);
    }
    // a set: its order in the text is arbitrary
    if let Some(a) = v.get_mut("terminate_missing_features").and_then(|a| a.as_array_mut()) {
        a.sort_by_key(|e| e.as_u64());
    }
    v
}
/// First difference between two JSON values.
pub fn json_diff(a: &serde_json::Value, b: &serde_json::Value, path: &str) -> Option<String> {
    use serde_json::Value::*;
    match (a, b) {
        (Object(x), Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}.{} only on one side", path, k)),
                    Some(w) => {
                        if let Some(d) = json_diff(v, w, &format!("{}.{}", path, k)) {
                            return Some(d);
                        }
                    }
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    return Some(format!("{}.{} only on one side", path, k));
                }
            }
            None
        }
        (Array(x), Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{} has {} and {} elements", path, x.len(), y.len()));
            }
            for i in 0..x.len() {
                if let Some(d) = json_diff(&x[i], &y[i], &format!("{}[{}]", path, i)) {
                    return Some(d);
                }
            }
            None
        }
        (Number(x), Number(y)) => {
            let same = x == y || x.as_f64().map(|v| v.to_bits()) == y.as_f64().map(|v| v.to_bits());
            if same {
                None
            } else {
                Some(format!("{}: {} and {}", path, x, y))
            }
        }
        _ => {
            if a == b {
                None
            } else {
                Some(format!("{}: {} and {}", path, a, b))
            }
        }
    }
}
pub fn n_splits(m: &RModel) -> usize {
    m.trees.iter().map(|t| t.nodes.iter().filter(|n| !n.leaf).count()).sum()
}

/// A large scoring batch made of copies of the given records, nearly all of them of one record, with
/// the number of the record at every position.
pub fn tile(rows: &[Vec<f64>], cols: usize, n: usize, seed: u64) -> (Data, Vec<usize>) {
    let mut r = Rng::new(seed, "tile", 0);
    let common = r.below(rows.len());
    let rare = *r.pick(&[0.0005, 0.01, 0.5]);
    let ix: Vec<usize> = (0..n).map(|_| if r.chance(rare) { r.below(rows.len()) } else { common }).collect();
    let mut x = Vec::with_capacity(n * cols);
    for j in 0..cols {
        x.extend(ix.iter().map(|i| rows[*i][j]));
    }
    (Data { rows: n, cols, x, y: vec![0.0; n], w: vec![1.0; n] }, ix)
}
pub fn gen_tile(r: &mut Rng, c: &mut Case) {
    let n = *r.pick(&[1000usize, 1024, 4096, 8192, 10000, 16384, 33000]) + r.below(3) * r.below(700);
    c.setn("tile", n as f64);
    c.setn("tileseed", r.below(1 << 30) as f64);
}
