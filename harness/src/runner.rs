//! Case runner: sharded generation, classification, shrinking, replay files, evidence.
use crate::case::Case;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub worst: BTreeMap<String, f64>,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        *self.labels.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, s: &str, n: u64) {
        *self.labels.entry(s.to_string()).or_insert(0) += n;
    }
    /// Largest observed ratio error / tolerance (reported in the evidence).
    pub fn ratio(&mut self, s: &str, r: f64) {
        let e = self.worst.entry(s.to_string()).or_insert(0.0);
        if r > *e {
            *e = r;
        }
    }
}

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub gen: fn(&mut Rng, usize) -> Case,
    /// Ok(true): held, non-trivial. Ok(false): held, trivial. Err: violation.
    pub check: fn(&Case, &mut Ctx) -> Result<bool, String>,
    pub quick: usize,
    pub thorough: usize,
    /// keep the case inside the domain while shrinking
    pub valid: fn(&Case) -> bool,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        if let Ok(mut m) = PANIC_MSG.lock() {
            *m = msg.clone();
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Run a closure; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let mut m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.is_empty() {
                m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| PANIC_MSG.lock().map(|g| g.clone()).unwrap_or_default());
            }
            Err(m)
        }
    }
}

pub fn run_check(spec: &Spec, c: &Case, ctx: &mut Ctx) -> Result<bool, String> {
    match guarded(|| (spec.check)(c, ctx)) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    }
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn clip(v: &Value, max: usize) -> Value {
    let s = v.to_string();
    if s.len() <= max {
        v.clone()
    } else {
        let mut e = max;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        json!(format!("{}... ({} bytes of JSON in all)", &s[..e], s.len()))
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn run(spec: Spec) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let dir = verif_dir();

    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let path = &args[i + 1];
        let txt = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("cannot read {}: {}", path, e);
            std::process::exit(2)
        });
        let v: Value = serde_json::from_str(&txt).expect("replay file is not JSON");
        let c = Case::from_json(if v.get("case").is_some() { &v["case"] } else { &v });
        let mut ctx = Ctx::default();
        match run_check(&spec, &c, &mut ctx) {
            Ok(nt) => {
                println!("replay held (non-trivial: {})", nt);
                std::process::exit(0);
            }
            Err(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", spec.id, path);
                std::process::exit(1);
            }
        }
    }

    // One generated case in a process of its own (used by the supervisor after a crash).
    if let Some(i) = args.iter().position(|a| a == "--range") {
        let a: usize = args[i + 1].parse().unwrap();
        let b: usize = args[i + 2].parse().unwrap();
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            for i in a..b {
                let mut r = Rng::new(seed, spec.id, i as u64);
                let c = (spec.gen)(&mut r, i);
                let _ = run_check(&spec, &c, &mut Ctx::default());
            }
        });
        let _ = h.unwrap().join();
        std::process::exit(0);
    }

    let mut total = if tier == "quick" { spec.quick } else { spec.thorough };
    if let Some(i) = args.iter().position(|a| a == "--cases") {
        total = args[i + 1].parse().unwrap();
    }
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    if let Some(i) = args.iter().position(|a| a == "--threads") {
        threads = args[i + 1].parse().unwrap();
    }

    if std::env::var("VH_CHILD").is_err() {
        supervise(&spec, &args, tier, seed, t0, total, &dir);
    }

    // Watchdog: a run that takes too long as a whole gives no verdict.
    let limit = if tier == "quick" { 780 } else { 8 * 3600 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: time limit of {} s reached, no verdict", limit);
        std::process::exit(2);
    });

    // 1. committed regression inputs
    let mut reg_paths: Vec<String> = std::fs::read_dir(format!("{}/regress/{}", dir, spec.id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path().display().to_string()).collect())
        .unwrap_or_default();
    reg_paths.sort();
    let mut regress = 0;
    for path in &reg_paths {
        let txt = std::fs::read_to_string(path).unwrap();
        let v: Value = serde_json::from_str(&txt).expect("regress file");
        let c = Case::from_json(if v.get("case").is_some() { &v["case"] } else { &v });
        let mut ctx = Ctx::default();
        regress += 1;
        if let Err(m) = run_check(&spec, &c, &mut ctx) {
            println!("{}", m);
            write_evidence(&spec, &dir, tier, seed, t0, regress, 0, 0, &Ctx::default(), &[], 1, &m, regress);
            println!("VIOLATION property={} replay={}", spec.id, path);
            std::process::exit(1);
        }
    }

    // 2. generated cases
    let next = AtomicUsize::new(0);
    let limit_idx = AtomicUsize::new(usize::MAX);
    let failures: Mutex<Vec<(usize, String, Case)>> = Mutex::new(vec![]);
    let merged: Mutex<(Ctx, u64, HashSet<u64>, Vec<(usize, Value)>)> =
        Mutex::new((Ctx::default(), 0, HashSet::new(), vec![]));
    // start time (ms since t0, plus one) and index of the case each worker is busy with
    let busy: Vec<(AtomicUsize, AtomicUsize)> = (0..threads).map(|_| (AtomicUsize::new(0), AtomicUsize::new(0))).collect();
    let done = AtomicUsize::new(0);
    let case_limit_s: usize = std::env::var("VH_CASE_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(90);
    std::thread::scope(|s| {
        // A single case normally takes milliseconds; one that does not end is a violation.
        s.spawn(|| {
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as usize + 1;
                for (st, ix) in &busy {
                    let b = st.load(Ordering::SeqCst);
                    if b != 0 && now.saturating_sub(b) > case_limit_s * 1000 {
                        let idx = ix.load(Ordering::SeqCst);
                        let mut r = Rng::new(seed, spec.id, idx as u64);
                        let c = (spec.gen)(&mut r, idx);
                        let m = format!("hang: case {} did not finish within {} s", idx, case_limit_s);
                        let path = write_replay(&spec, &dir, seed, idx, &m, 0, &c);
                        println!("{}", m);
                        write_evidence(&spec, &dir, tier, seed, t0, next.load(Ordering::SeqCst) as u64, 0, total as u64, &Ctx::default(), &[], 1, &m, regress);
                        println!("VIOLATION property={} replay={}", spec.id, path);
                        std::process::exit(1);
                    }
                }
            }
        });
        for k in 0..threads {
            let (busy, done, next, limit_idx, spec, merged, failures) = (&busy, &done, &next, &limit_idx, &spec, &merged, &failures);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx::default();
                    let mut n = 0u64;
                    let mut seen = HashSet::new();
                    let mut samples = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > limit_idx.load(Ordering::SeqCst) {
                            break;
                        }
                        busy[k].1.store(i, Ordering::SeqCst);
                        busy[k].0.store(t0.elapsed().as_millis() as usize + 1, Ordering::SeqCst);
                        let mut r = Rng::new(seed, spec.id, i as u64);
                        let c = (spec.gen)(&mut r, i);
                        n += 1;
                        ctx.label(&format!("kind:{}", c.kind));
                        match run_check(spec, &c, &mut ctx) {
                            Ok(true) => {
                                let js = c.to_json();
                                let txt = js.to_string();
                                seen.insert(fnv(&txt));
                                if i < 200 && (txt.len() < 2500 || i % 50 == 7) && samples.len() < 3 {
                                    samples.push((i, clip(&js, 4000)));
                                }
                            }
                            Ok(false) => ctx.label("trivial"),
                            Err(m) => {
                                limit_idx.fetch_min(i, Ordering::SeqCst);
                                failures.lock().unwrap().push((i, m, c));
                            }
                        }
                    }
                    busy[k].0.store(0, Ordering::SeqCst);
                    done.fetch_add(1, Ordering::SeqCst);
                    let mut g = merged.lock().unwrap();
                    for (k, v) in ctx.labels {
                        *g.0.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in ctx.worst {
                        g.0.ratio(&k, v);
                    }
                    g.1 += n;
                    g.2.extend(seen);
                    g.3.extend(samples);
                })
                .unwrap();
        }
    });
    let (ctx, evals, seen, mut samples) = merged.into_inner().unwrap();
    samples.sort_by_key(|s| s.0);
    samples.truncate(4);
    let samples: Vec<Value> = samples.into_iter().map(|s| s.1).collect();
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.0);

    if let Some((idx, msg, case)) = failures.into_iter().next() {
        println!("case {} failed: {}", idx, short(&msg));
        let (small, smsg, steps) = crate::shrink::shrink(&spec, case, msg);
        let path = write_replay(&spec, &dir, seed, idx, &smsg, steps, &small);
        println!("minimal: {}", short(&smsg));
        write_evidence(&spec, &dir, tier, seed, t0, evals, seen.len() as u64, total as u64, &ctx, &samples, 1, &smsg, regress);
        println!("VIOLATION property={} replay={}", spec.id, path);
        std::process::exit(1);
    }
    write_evidence(&spec, &dir, tier, seed, t0, evals, seen.len() as u64, total as u64, &ctx, &samples, 0, "", regress);
    println!(
        "{} held: {} cases, {} distinct non-trivial, {} regression inputs, {:.1}s",
        spec.id,
        evals,
        seen.len(),
        regress,
        t0.elapsed().as_secs_f64()
    );
    if args.iter().any(|a| a == "--stats") {
        for (k, v) in &ctx.labels {
            println!("  {:<50} {}", k, v);
        }
        for (k, v) in &ctx.worst {
            println!("  worst {:<44} {:.4}", k, v);
        }
    }
    std::process::exit(0);
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    spec: &Spec,
    dir: &str,
    tier: &str,
    seed: u64,
    t0: Instant,
    evals: u64,
    distinct: u64,
    planned: u64,
    ctx: &Ctx,
    samples: &[Value],
    violations: u64,
    msg: &str,
    regress: u64,
) {
    let ev = json!({
        "property": spec.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "planned_cases": planned,
            "regression_inputs": regress,
            "rule": spec.rule, "samples": samples,
            "classes": ctx.labels, "worst_error_over_tolerance": ctx.worst,
            "message": msg,
        },
        "assumptions": spec.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let path = format!("{}/evidence/{}.json", dir, spec.id);
    std::fs::create_dir_all(format!("{}/evidence", dir)).ok();
    std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap()).ok();
}

/// A listed known finding: `fails` says whether the recorded input still fails. Prints the
/// KNOWN-FINDING line if it is listed in known_findings.txt, otherwise reports a violation.
pub fn known_finding(id: &str, key: &str, input: Value, outcome: Result<(), String>) {
    if let Err(what) = outcome {
        let dir = verif_dir();
        let listed = std::fs::read_to_string(format!("{}/known_findings.txt", dir))
            .map(|t| t.lines().any(|l| l.starts_with(&format!("finding: property={} key={} ", id, key))))
            .unwrap_or(false);
        if listed {
            println!("KNOWN-FINDING: property={} {}: {}", id, key, what);
        } else {
            let path = format!("{}/replays/{}-{}.json", dir, id, key);
            std::fs::create_dir_all(format!("{}/replays", dir)).ok();
            std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "message": what, "input": input})).unwrap()).ok();
            println!("{}", what);
            println!("VIOLATION property={} replay={}", id, path);
            std::process::exit(1);
        }
    }
}

fn write_replay(spec: &Spec, dir: &str, seed: u64, idx: usize, msg: &str, steps: usize, case: &Case) -> String {
    let js = json!({"property": spec.id, "seed": seed, "index": idx, "message": msg, "shrink_steps": steps, "case": case.to_json()});
    let rdir = format!("{}/replays", dir);
    std::fs::create_dir_all(&rdir).ok();
    let path = format!("{}/{}-{:016x}.json", rdir, spec.id, fnv(&case.to_json().to_string()));
    std::fs::write(&path, serde_json::to_string_pretty(&js).unwrap()).ok();
    path
}

/// Run the real work in a child process. If the child dies from a signal (stack overflow, abort,
/// out of memory) the failing case is located by re-running index ranges in processes of their own.
fn supervise(spec: &Spec, args: &[String], tier: &str, seed: u64, t0: Instant, total: usize, dir: &str) -> ! {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("current_exe");
    let st = Command::new(&exe).args(&args[1..]).env("VH_CHILD", "1").status().expect("cannot start worker process");
    match st.code() {
        Some(c) if c < 100 => std::process::exit(c),
        _ => {}
    }
    println!("worker ended abnormally ({:?}); looking for the case", st);
    let crashes = |a: usize, b: usize| -> bool {
        // eight of these run at once
        let s = Command::new("bash")
            .args(["-c", "ulimit -v 3600000; exec \"$0\" \"$@\""])
            .arg(&exe)
            .args(["--range", &a.to_string(), &b.to_string()])
            .env("VH_CHILD", "1")
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        !matches!(s.ok().and_then(|s| s.code()), Some(c) if c < 100)
    };
    // first crashing chunk, eight at a time
    let chunk = 25;
    let next = AtomicUsize::new(0);
    let found = Mutex::new(None::<usize>);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let a = next.fetch_add(chunk, Ordering::SeqCst);
                if a >= total || found.lock().unwrap().is_some() || t0.elapsed().as_secs() > 600 {
                    break;
                }
                if crashes(a, (a + chunk).min(total)) {
                    for i in a..(a + chunk).min(total) {
                        if crashes(i, i + 1) {
                            *found.lock().unwrap() = Some(i);
                            break;
                        }
                    }
                }
            });
        }
    });
    let idx = *found.lock().unwrap();
    if let Some(i) = idx {
        let mut r = Rng::new(seed, spec.id, i as u64);
        let c = (spec.gen)(&mut r, i);
        let m = format!("crash: case {} ends the process ({:?})", i, st);
        let path = write_replay(spec, dir, seed, i, &m, 0, &c);
        println!("{}", m);
        write_evidence(spec, dir, tier, seed, t0, i as u64 + 1, 0, total as u64, &Ctx::default(), &[], 1, &m, 0);
        println!("VIOLATION property={} replay={}", spec.id, path);
        std::process::exit(1);
    }
    eprintln!("the abnormal end could not be reproduced");
    std::process::exit(2);
}

fn short(s: &str) -> String {
    if s.chars().count() <= 800 {
        return s.to_string();
    }
    s.chars().take(800).collect::<String>() + " ..."
}
