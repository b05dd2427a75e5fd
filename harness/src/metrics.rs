//! Reference metrics, straight from their definitions.
fn softplus(f: f64) -> f64 {
    f.max(0.0) + (-f.abs()).exp().ln_1p()
}
/// -[y ln p + (1-y) ln(1-p)] with p = sigmoid(f), evaluated without cancellation
pub fn bce(y: f64, f: f64) -> f64 {
    // y * softplus(-f) + (1-y) * softplus(f)
    let a = if y == 0.0 { 0.0 } else { y * softplus(-f) };
    let b = if y == 1.0 { 0.0 } else { (1.0 - y) * softplus(f) };
    a + b
}
fn wmean(v: impl Iterator<Item = (f64, f64)>) -> f64 {
    let (mut s, mut w) = (0.0, 0.0);
    for (x, k) in v {
        s += x * k;
        w += k;
    }
    s / w
}
pub fn log_loss(y: &[f64], f: &[f64], w: &[f64]) -> f64 {
    wmean((0..y.len()).map(|i| (bce(y[i], f[i]), w[i])))
}
pub fn rmse(y: &[f64], f: &[f64], w: &[f64]) -> f64 {
    wmean((0..y.len()).map(|i| ((y[i] - f[i]) * (y[i] - f[i]), w[i]))).sqrt()
}
pub fn rmsle(y: &[f64], f: &[f64], w: &[f64]) -> f64 {
    wmean((0..y.len()).map(|i| {
        let d = y[i].ln_1p() - f[i].ln_1p();
        (d * d, w[i])
    }))
    .sqrt()
}
/// P(score of a positive > score of a negative) + half the ties, by pair enumeration over distinct scores
pub fn auc(y: &[f64], f: &[f64], w: &[f64]) -> f64 {
    if y.len() > 600 && f.iter().all(|v| !v.is_nan()) {
        return auc_sorted(y, f, w);
    }
    let (mut num, mut den) = (0.0, 0.0);
    for i in 0..y.len() {
        for j in 0..y.len() {
            let m = y[i] * w[i] * (1.0 - y[j]) * w[j];
            if m == 0.0 {
                continue;
            }
            den += m;
            if f[i] > f[j] {
                num += m;
            } else if f[i] == f[j] {
                num += 0.5 * m;
            }
        }
    }
    if den > 0.0 {
        num / den
    } else {
        f64::NAN
    }
}
pub fn metric(i: usize, y: &[f64], f: &[f64], w: &[f64]) -> f64 {
    match i {
        0 => auc(y, f, w),
        1 => log_loss(y, f, w),
        2 => rmsle(y, f, w),
        _ => rmse(y, f, w),
    }
}

/// The same for many records: positives against the negatives below them, group by group of equal scores.
fn auc_sorted(y: &[f64], f: &[f64], w: &[f64]) -> f64 {
    let mut ix: Vec<usize> = (0..y.len()).collect();
    ix.sort_by(|a, b| f[*a].partial_cmp(&f[*b]).unwrap());
    let (mut num, mut pos, mut below) = (0.0, 0.0, 0.0);
    let mut k = 0;
    while k < ix.len() {
        let (mut p, mut n) = (0.0, 0.0);
        let v = f[ix[k]];
        while k < ix.len() && f[ix[k]] == v {
            p += y[ix[k]] * w[ix[k]];
            n += (1.0 - y[ix[k]]) * w[ix[k]];
            k += 1;
        }
        num += p * (below + 0.5 * n);
        pos += p;
        below += n;
    }
    num / (pos * below)
}
