#!/usr/bin/env python3
"""Mutation testing of the checks (a development aid, not a check).

mutate.py list FILE...                 print the mutants of the files (relative to the repository)
mutate.py run WORKERS SAMPLE SEED FILE...   run the Rust checks on a sample of mutants, each worker in
                                       its own copy under /tmp/mw, and log survivors to /tmp/mw/log
Survivors still have to be judged by hand: many are equivalent or fail the repository's own tests."""
import os, time, random, re, shutil, subprocess, sys, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")

OPS = [
    (r"(?<![<>=\-!+*/&|])<(?![<=])(?= )", ["<="]), (r"(?<= )>(?![>=])(?= )", [">="]), (r"<=", ["<"]), (r"(?<![=\-])>=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]),
    (r"\+=", ["-="]), (r"-=", ["+="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "2.0"]), (r"\b0\.5\b", ["0.25"]),
    (r"\bleft_", ["right_"]), (r"\bright_", ["left_"]), (r"\bmissing_(?=gradient|hessian|gain|weight|node|child)", ["left_", "right_"]),
    (r"\bleft_child\b", ["right_child"]), (r"\bgrad\b", ["hess"]), (r"\bhess\b", ["grad"]), (r"\bgrad_sum\b", ["hess_sum"]), (r"\bhess_sum\b", ["grad_sum"]),
    (r"gradient_sum", ["hessian_sum"]), (r"hessian_sum", ["gradient_sum"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"if (?!let)", ["if !("]),
    (r"\.is_nan\(\)", [".is_infinite()"]), (r"f64::MAX", ["f64::MIN"]), (r"f32::INFINITY", ["f32::NEG_INFINITY"]), (r"f32::NEG_INFINITY", ["f32::INFINITY"]),
    (r"lower_bound", ["upper_bound"]), (r"upper_bound", ["lower_bound"]), (r"\.start\b", [".stop"]), (r"Some\((\w+)\)", ["None"]),
    (r"start_idx", ["stop_idx"]), (r"stop_idx", ["start_idx"]), (r"\.rev\(\)", [""]), (r"split_gain", ["gain_value", "hessian_sum"]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"Greater\b", ["Less"]), (r"Less\b", ["Greater"]),
    (r"\.abs\(\)", [""]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\.take\((\w+)\)", [""]), (r"\.skip\((\w+)\)", [""]),
    (r"len\(\)", ["len() - 1", "len() + 1"]), (r" as f32 as f64", [""]),
]
DEL = re.compile(r"^\s+(?!let |return|use |pub |#|//|\}|mod |type |const )[\w.&*\[\]() ]+(\(|=|\+=|-=).*;\s*$")

def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    body = src.split("#[cfg(test)]")[0] if path.endswith(".rs") else src
    lines = body.split("\n")
    out = []
    for i, l in enumerate(lines):
        code = l.split("//")[0] if path.endswith(".rs") else l.split("#")[0]
        if not code.strip() or code.strip().startswith(("use ", "pub use", "mod ", "#[", "assert", "debug_assert")):
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if pat.startswith("if (?!let)"):
                        if not code.rstrip().endswith("{"):
                            continue
                        new = code[: m.start()] + "if !(" + code[m.end():].rstrip()[:-1].rstrip() + ") {"
                    else:
                        new = code[: m.start()] + r + code[m.end():]
                    if new != code:
                        out.append((path, i, l, new))
        if DEL.match(code):
            out.append((path, i, l, re.match(r"\s*", code).group(0) + "{}"))
    return out

def sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def worker(k, jobs, out, threads):
    w = f"/tmp/mw/{k}"
    os.makedirs(w + "/v/evidence", exist_ok=True); os.makedirs(w + "/v/replays", exist_ok=True)
    shutil.rmtree(w + "/repo", ignore_errors=True)
    subprocess.run(["git", "clone", "-q", REPO, w + "/repo"], check=True)
    hsrc = os.environ.get("MUT_HARNESS", VERIF + "/harness")
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", hsrc + "/", w + "/h/"], check=True)
    t = open(w + "/h/Cargo.toml").read()
    t = re.sub(r'forust-ml = \{ path = "[^"]*"', f'forust-ml = {{ path = "{w}/repo"', t)
    open(w + "/h/Cargo.toml", "w").write(t)
    bins = sorted(b[:-3] for b in os.listdir(w + "/h/src/bin") if re.match(r"c\d\d\.rs", b))
    # one program instead of one per check: much faster to build
    os.makedirs(w + "/h/src/b", exist_ok=True)
    main_rs = "fn main() {\n    match std::env::var(\"VH_BIN\").unwrap().as_str() {\n"
    for b in bins:
        t = open(f"{w}/h/src/bin/{b}.rs").read().replace("\nfn main()", "\npub fn main()")
        open(f"{w}/h/src/b/{b}.rs", "w").write(t)
        main_rs = f'#[path = "../b/{b}.rs"]\n#[allow(dead_code)]\nmod {b};\n' + main_rs + f'        "{b}" => {b}::main(),\n'
    shutil.rmtree(w + "/h/src/bin")
    os.makedirs(w + "/h/src/bin")
    open(w + "/h/src/bin/all.rs", "w").write(main_rs + "        _ => unreachable!(),\n    }\n}\n")
    t = open(w + "/h/Cargo.toml").read().replace("opt-level = 2", "opt-level = 1").replace("incremental = false", "incremental = true").replace("codegen-units = 16", "codegen-units = 64")
    open(w + "/h/Cargo.toml", "w").write(t)
    env = dict(os.environ, VERIF_DIR=w + "/v", VERIF_SEED="1", VH_CASE_LIMIT="20", CARGO_NET_OFFLINE="true", RAYON_NUM_THREADS="2", CARGO_INCREMENTAL="1")
    hot = []
    while True:
        j = jobs.get()
        if j is None:
            return
        path, i, old, new = j
        t0 = time.time()
        f = f"{w}/repo/{path}"
        src = open(f).read().split("\n")
        assert src[i] == old
        src[i] = new
        open(f, "w").write("\n".join(src))
        rc, o = sh(f"cargo build --release --offline --manifest-path {w}/h/Cargo.toml --target-dir {w}/t -j {threads}", 300, env)
        res = None
        if rc:
            res = "nobuild"
        else:
            order = hot[:8] + [b for b in bins if b not in hot[:8]]
            for b in order:
                q = os.environ.get("MUT_CASES", "3000")
                q = {"c02": "1000", "c19": "1500", "c25": "2000", "c17": "30000", "c18": "20000"}.get(b, q)
                rc, o = sh(f"VH_BIN={b} timeout -k 5 150 {w}/t/release/all --cases {q} --threads {threads}", 200, env)
                if rc:
                    res = f"killed {b}"
                    if b in hot: hot.remove(b)
                    hot.insert(0, b)
                    break
        src[i] = old
        open(f, "w").write("\n".join(src))
        out.put((f"{res or 'SURVIVED'} {time.time() - t0:.0f}s", j))

def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for p, i, o, n in mutants(f):
                print(f"{p}:{i+1}: {o.strip()}  ->  {n.strip()}")
        return
    nw, sample, seed = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    ms = [m for f in sys.argv[5:] for m in mutants(f)]
    random.Random(seed).shuffle(ms)
    ms = ms[:sample]
    jobs, out = mp.Queue(), mp.Queue()
    for m in ms: jobs.put(m)
    for _ in range(nw): jobs.put(None)
    ps = [mp.Process(target=worker, args=(k, jobs, out, max(1, 8 // nw))) for k in range(nw)]
    for p in ps: p.start()
    with open("/tmp/mw/log", "a") as lg:
        for n in range(len(ms)):
            res, (p, i, o, nw_) = out.get()
            lg.write(f"{res}\t{p}:{i+1}\t{o.strip()}\t->\t{nw_.strip()}\n"); lg.flush()
    for p in ps: p.join()

main()
