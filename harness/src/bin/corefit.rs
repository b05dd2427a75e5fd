//! Reference server for the Python checks: one case per input line; fits the core library
//! and answers with the model document and its results for the probe records.
use forust_ml::gradientbooster::ContributionsMethod;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use vh::*;

fn answer(line: &str) -> Value {
    let v: Value = match serde_json::from_str(line) {
        Ok(v) => v,
        Err(e) => return json!({"harness_error": e.to_string()}),
    };
    let r = guarded(|| -> Result<Value, String> {
        let c = Case::from_json(&v);
        let mut b = c.p.try_build()?;
        c.fit_into(&mut b)?;
        let d = c.probe_data();
        let m = d.matrix();
        Ok(json!({
            "doc": b.json_dump().map_err(|e| e.to_string())?,
            "pred": fvec(&b.predict(&m, false)),
            "leaf": b.predict_leaf_indices(&m),
            "average": fvec(&b.predict_contributions(&m, ContributionsMethod::Average, false)),
        }))
    });
    match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"err": e}),
        Err(p) => json!({"panic": p}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let _ = writeln!(out, "{}", answer(&line));
        let _ = out.flush();
    }
}
