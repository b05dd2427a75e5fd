"""Runner for the Python property checks: sharded Hypothesis generation, shrinking, replay files, evidence."""
import collections, hashlib, json, os, subprocess, sys, time, warnings

D = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
STALL = float(os.environ.get("VH_CASE_LIMIT", "240"))
OUT = os.path.join(D, ".build", "pyout")


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


def fail(kind, msg):
    raise Violation(f"{kind}: {msg}")


class Ctx:
    def __init__(self):
        self.labels = collections.Counter()

    def label(self, s, n=1):
        self.labels[s] += n


def digest(case):
    return hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def guarded(check, case, ctx):
    """Run a check; everything the code under test raises becomes a Violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return bool(check(case, ctx))
    except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # also pyo3's PanicException
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-4:])
        raise Violation(f"unexpected {type(e).__name__}: {str(e)[:400]} (at {where})") from None


def shard_main(spec, k, n, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed, settings

    try:
        from hypothesis.internal.conjecture import engine

        engine.MAX_SHRINKING_SECONDS = 40
    except Exception:
        pass
    ctx = Ctx()
    st = {"evaluations": 0, "nontrivial": set(), "samples": [], "failure": None}
    cur = os.path.join(OUT, f"{spec['id']}-{k}.cur")

    def body(case):
        if st["failure"] is None and time.time() > deadline:
            return
        with open(cur, "w") as f:
            json.dump(case, f)
        try:
            nt = guarded(spec["check"], case, ctx if st["failure"] is None else Ctx())
        except Violation as e:
            st["failure"] = {"message": str(e), "case": case}
            raise AssertionError("violation") from None
        if st["failure"] is None:
            st["evaluations"] += 1
            if isinstance(case.get("data"), dict):
                if case.get("cols", 0) > 10:
                    ctx.label("more than 10 columns")
                if max([1] + [len(d["x"]) * d.get("tile", 1) for d in [case["data"]] + case.get("evals", [])] + [len(case.get("probe", [])) * case.get("ptile", 1)]) > 1000:
                    ctx.label("more than 1000 records")
            if nt:
                st["nontrivial"].add(digest(case))
                if len(st["samples"]) < 1 and st["evaluations"] > 20:
                    st["samples"].append(case)

    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False, report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet,
    )(seed(SEED * 1000003 + k)(given(spec["strategy"])(body)))
    err = None
    try:
        test()
    except HarnessError as e:
        err = str(e)
    except BaseException as e:
        if st["failure"] is None:
            err = f"{type(e).__name__}: {e}"
    res = {
        "evaluations": st["evaluations"], "nontrivial": sorted(st["nontrivial"]), "samples": st["samples"],
        "labels": dict(ctx.labels), "failure": st["failure"], "error": err,
    }
    with open(os.path.join(OUT, f"{spec['id']}-{k}.json"), "w") as f:
        json.dump(res, f)
    sys.exit(0)


def write_replay(pid, message, case):
    os.makedirs(os.path.join(D, "replays"), exist_ok=True)
    path = os.path.join(D, "replays", f"{pid}-py-{SEED}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "py": True, "message": message, "case": case}, f, indent=1)
    return path


def clip(case):
    s = json.dumps(case)
    return case if len(s) < 3000 else s[:3000] + f"... ({len(s)} bytes of JSON in all)"


def run(id, rule, strategy, check, quick, thorough, assumptions=()):
    import forust

    if not os.path.abspath(forust.__file__).startswith(os.path.join(D, ".build", "pkg")):
        print("the package under test is not the one built from /repo:", forust.__file__, file=sys.stderr)
        sys.exit(2)
    spec = {"id": id, "strategy": strategy, "check": check}
    a = sys.argv[1:]
    if "--replay" in a:
        path = a[a.index("--replay") + 1]
        v = json.load(open(path))
        try:
            nt = guarded(check, v.get("case", v), Ctx())
            print(f"replay held (non-trivial: {nt})")
            sys.exit(0)
        except Violation as e:
            print(e)
            print(f"VIOLATION property={id} replay={path}")
            sys.exit(1)
    os.makedirs(OUT, exist_ok=True)
    n = quick if TIER == "quick" else thorough
    if "--cases" in a:
        n = int(a[a.index("--cases") + 1])
    budget = 240 if TIER == "quick" else 3000
    if "--shard" in a:
        k = int(a[a.index("--shard") + 1])
        m = int(a[a.index("--n") + 1])
        shard_main(spec, k, m, time.time() + budget)
    t0 = time.time()
    # regression inputs
    nreg = 0
    rdir = os.path.join(D, "regress", "py", id)
    failure = None
    ctx = Ctx()
    for fn in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        v = json.load(open(os.path.join(rdir, fn)))
        nreg += 1
        try:
            guarded(check, v.get("case", v), ctx)
        except Violation as e:
            failure = {"message": f"regression input {fn}: {e}", "case": v.get("case", v)}
            break
    ev, nts, samples, labels, errors = 0, set(), [], collections.Counter(), []
    if failure is None:
        shards = 8 if n >= 80 else 1
        env = dict(os.environ, RAYON_NUM_THREADS=os.environ.get("RAYON_NUM_THREADS", "3"))
        procs = {}
        for k in range(shards):
            for suf in (".json", ".cur"):
                try:
                    os.remove(os.path.join(OUT, f"{id}-{k}{suf}"))
                except FileNotFoundError:
                    pass
            log = open(os.path.join(OUT, f"{id}-{k}.log"), "w")
            procs[k] = subprocess.Popen(
                [sys.executable, os.path.abspath(sys.argv[0]), "--shard", str(k), "--n", str(n // shards)], env=env, stdout=log, stderr=log,
            )
        started = time.time()
        while procs:
            time.sleep(0.05)
            for k, p in list(procs.items()):
                rc = p.poll()
                cur = os.path.join(OUT, f"{id}-{k}.cur")
                if rc is None:
                    last = os.path.getmtime(cur) if os.path.exists(cur) else started
                    if time.time() - last > STALL and time.time() - started > STALL:
                        p.kill()
                        p.wait()
                        if os.path.exists(cur):
                            failure = failure or {"message": f"no answer within {STALL:.0f} s", "case": json.load(open(cur))}
                        else:
                            errors.append(f"shard {k} did not start")
                        del procs[k]
                    continue
                del procs[k]
                res = os.path.join(OUT, f"{id}-{k}.json")
                if os.path.exists(res):
                    r = json.load(open(res))
                    ev += r["evaluations"]
                    nts.update(r["nontrivial"])
                    samples += r["samples"]
                    labels.update(r["labels"])
                    if r["error"]:
                        errors.append(r["error"])
                    if r["failure"]:
                        f = r["failure"]
                        if failure is None or len(json.dumps(f["case"])) < len(json.dumps(failure["case"])):
                            failure = f
                elif rc < 0 and rc != -9 and os.path.exists(cur):
                    failure = failure or {"message": f"the process crashed with signal {-rc}", "case": json.load(open(cur))}
                else:
                    log = open(os.path.join(OUT, f"{id}-{k}.log")).read()[-1500:]
                    errors.append(f"shard {k} ended with {rc}: {log}")
    wall = time.time() - t0
    # evidence, merged with that of the core part of the same check
    epath = os.path.join(D, "evidence", f"{id}.json")
    os.makedirs(os.path.dirname(epath), exist_ok=True)
    cov = {
        "evaluations": ev, "distinct_nontrivial": len(nts), "rule": rule, "samples": [clip(s) for s in samples[:3]],
        "classes": dict(sorted(labels.items())), "planned_cases": n, "regression_inputs": nreg,
        "message": failure["message"] if failure else "",
    }
    e = {
        "property": id, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
        "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": 1 if failure else 0,
    }
    if os.path.exists(epath):
        old = json.load(open(epath))
        oc = old["coverage"]
        for key in ("evaluations", "distinct_nontrivial", "planned_cases", "regression_inputs"):
            cov[key] += oc.get(key, 0)
        cov["rule"] = "Core: " + oc["rule"] + " Python: " + rule
        cov["samples"] = oc["samples"] + cov["samples"]
        cov["classes"] = {**oc.get("classes", {}), **{"python " + k: v for k, v in cov["classes"].items()}}
        for key in oc:
            cov.setdefault(key, oc[key])
        e["assumptions"] = old.get("assumptions", []) + e["assumptions"]
        e["wall_s"] = round(e["wall_s"] + old["wall_s"], 2)
    with open(epath, "w") as f:
        json.dump(e, f, indent=1)
    if failure:
        path = write_replay(id, failure["message"], failure["case"])
        print(failure["message"])
        print(f"VIOLATION property={id} replay={path}")
        sys.exit(1)
    if errors or ev == 0:
        print("\n".join(errors) or "no case ran", file=sys.stderr)
        sys.exit(2)
    print(f"{id} (python) held: {ev} cases, {len(nts)} distinct non-trivial, {nreg} regression inputs, {wall:.1f}s")
    if "--stats" in a:
        for k, v in sorted(labels.items()):
            print(f"  {k:50s} {v}")
    sys.exit(0)
