#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a definitions file (development helper; no check uses it).

usage: plant.py DEFS.py [id ...]     DEFS.py calls BUG(id, prop, edits, needs, breaks, demo)
The patch is made in a scratch copy of the tracked files of /repo's HEAD.
"""
import json, os, subprocess, sys, tempfile, pathlib, shutil
SEEDED = pathlib.Path("/verif/seeded")
PRELUDE = '''import json, os, sys, warnings, copy, pickle, tempfile
import numpy as np, pandas as pd
sys.path.insert(0, os.path.join(os.getcwd(), "py-forust"))
warnings.simplefilter("ignore")
from forust import GradientBooster


def trees(m):
    return [t["nodes"] for t in json.loads(m.json_dump())["trees"]]


def leaf(t, row, missing=np.nan):
    i = 0
    while not t[i]["is_leaf"]:
        v = row[t[i]["split_feature"]]
        miss = np.isnan(v) if np.isnan(missing) else v == missing
        n = t[i]
        i = n["missing_node"] if miss else n["left_child"] if v < n["split_value"] else n["right_child"]
    return t[i]


def expect(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the behaviour is broken (run with cwd /repo after build.sh)
export PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/pyenv/bin/python "$(dirname "$0")/demo.py"
'''
RSH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the behaviour is broken (run with cwd /repo after build.sh)
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nforust-ml = { path = "%s" }\\n' "$PWD" > "$T/Cargo.toml"
timeout 280 cargo run -q --offline --manifest-path "$T/Cargo.toml" --target-dir "$T/target" 2>"$T/err"
rc=$?
[ $rc = 0 ] || tail -5 "$T/err"
exit $rc
'''
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
want = sys.argv[2:]

def BUG(id, prop, edits, needs, breaks, demo, rust=False):
    if want and id not in want:
        return
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w", "HEAD"])
        w = pathlib.Path(tmp) / "w"
        for f, old, new in edits:
            p = w / f
            s = p.read_text()
            n = s.count(old)
            if n != 1:
                print(f"{id}: {f}: old text occurs {n} times"); return
            p.write_text(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", str(w), "diff"], text=True)
        # removed lines must be original ones
        for f, old, new in edits:
            bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], text=True).splitlines()
            mine = {l.split(") ", 1)[1].strip() for l in bl if base[:12] not in l.split(" ")[0]}
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() in mine and len(l[1:].strip()) > 6:
                    print(f"{id}: note: removed line may be mine: {l}")
        d = SEEDED / id
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(RSH if rust else SH)
        if rust:
            (d / "demo.rs").write_text(demo.strip() + "\n")
        else:
            (d / "demo.py").write_text(PRELUDE + demo.strip() + "\nprint('ok')\n")
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        os.chmod(d / "demo.sh", 0o755)
        print("planted", id)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"])
        shutil.rmtree(tmp, ignore_errors=True)

exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
