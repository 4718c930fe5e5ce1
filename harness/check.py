"""Check driver: runs a property's jobs in parallel, merges what the monitors
observed, writes the evidence file and gives the verdict.

    python -m harness.check C03            (VERIF_SEED, VERIF_TIER from env)
    python -m harness.check C03 --replay out/C03/replay_x.json
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))


def job_env(spec):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "NUMBA_DISABLE_JIT", "COSIPY_DIR", "NUMBA_BOUNDSCHECK"):
        env.pop(k, None)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=spec["scratch"] + "/mpl",
        XDG_CACHE_HOME=spec["scratch"] + "/cache",
        NUMBA_CACHE_DIR=spec["scratch"] + "/numba",
        PYTHONWARNINGS="ignore",
        HDF5_USE_FILE_LOCKING="FALSE",
    )
    env["PYTHONPATH"] = str(VERIF)
    env.update(spec.get("env") or {})
    return env


def run_job(spec):
    out = spec["scratch"] + ".out.json"
    sp = spec["scratch"] + ".spec.json"
    with open(sp, "w") as f:
        json.dump(spec, f)
    log = spec["scratch"] + ".log"
    t0 = time.time()
    with open(log, "wb") as lf:
        p = subprocess.Popen(
            [PY, "-m", "harness.worker", sp, out],
            cwd=str(VERIF), env=job_env(spec), stdout=lf, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, start_new_session=True,
        )
        try:
            rc = p.wait(timeout=spec.get("timeout_s", 240))
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    if os.path.exists(out):
        res = json.load(open(out))
    else:
        tail = open(log, "rb").read()[-3000:].decode(errors="replace")
        if isinstance(rc, int) and rc < 0:
            res = {"status": "died", "error": f"worker died rc={rc}\n{tail}"}
        else:
            res = {"status": "error", "error": f"worker gave no result rc={rc}\n{tail}"}
        res.update(counters={}, states=[], evaluations=0, samples=[], violations=[], notes=[])
    res["proc_wall"] = time.time() - t0
    shutil.rmtree(spec["scratch"], ignore_errors=True)
    for p_ in (out, sp):
        if os.path.exists(p_):
            os.remove(p_)
    return res


def load_known(prop):
    known = {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("known: "):
                body = line[len("known: "):]
                parts = body.split(None, 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                if d.get("property") == prop:
                    known[d["key"]] = parts[2]
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", help="run only jobs whose name contains this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    outdir = VERIF / "out" / prop
    try:
        if a.replay:
            specs = [json.load(open(a.replay))["job"]]
        else:
            specs = mod.jobs(tier, seed)
        for i, s in enumerate(specs):
            s.setdefault("module", f"checks.{prop.lower()}")
            s.setdefault("func", "job")
            s.setdefault("mode", "interp")
            s.setdefault("tier", tier)
            s.setdefault("name", f"{s['func']}-{i}")
            s.setdefault("seed", seed * 100003 + i * 7919 + sum(map(ord, prop)))
            s["scratch"] = str(scratch / f"j{i}")
        if a.only:
            specs = [s for s in specs if a.only in s["name"]]
        results = [None] * len(specs)
        order = sorted(range(len(specs)), key=lambda i: -specs[i].get("cost", 1))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(run_job, specs[i]): i for i in order}
            for f in cf.as_completed(futs):
                results[futs[f]] = f.result()
                if a.v:
                    i = futs[f]
                    print(f"  [{specs[i]['name']}] {results[i]['status']} "
                          f"{results[i]['proc_wall']:.1f}s eval={results[i]['evaluations']} "
                          f"states={len(results[i]['states'])} viol={len(results[i]['violations'])} "
                          f"{results[i]['counters']}", flush=True)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)

    counters, states, evals, samples, viols, errors, notes = {}, set(), 0, [], [], [], []
    for s, r in zip(specs, results):
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        states.update(r["states"])
        evals += r["evaluations"]
        for x in r["samples"]:
            if len(samples) < 6:
                samples.append({"job": s["name"], "case": x})
        for v in r["violations"]:
            viols.append((s, v))
        notes += r["notes"]
        if r["status"] == "died":
            # abort/segfault of the interpreter running the code under test
            viols.append((s, {"key": "process-died", "what": r["error"], "witness": None}))
        elif r["status"] != "ok":
            errors.append((s["name"], r["error"]))

    known = load_known(prop)
    seen_known, new = {}, []
    for s, v in viols:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            new.append((s, v))
    missing = []
    if not a.replay and not a.only:
        for k, n in (getattr(mod, "REQUIRED", {}) or {}).items():
            # REQUIRED names what an idle machine easily exceeds; a fifth of it is
            # the line below which the workload did not reach its situations
            need = max(1, n // 5) if n else 0
            if counters.get(k, 0) < need:
                missing.append(f"{k}={counters.get(k, 0)} (<{need})")

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(states),
            "rule": mod.RULE,
            "samples": samples or ["(none observed)"],
            "observed": counters,
            "jobs": [
                {"name": s["name"], "mode": s["mode"], "status": r["status"],
                 "evaluations": r["evaluations"], "distinct": len(r["states"]),
                 "wall_s": round(r["proc_wall"], 2)}
                for s, r in zip(specs, results)
            ],
            "known_findings_observed": sorted(seen_known),
            "inconclusive": [e[0] for e in errors] + missing,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if not a.replay:
        (VERIF / "evidence").mkdir(exist_ok=True)
        with open(VERIF / "evidence" / f"{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)

    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} [{k}] {known[k]}")
    for n in sorted(set(notes))[:10]:
        print("note:", n)
    print(f"{prop}: {evals} oracle evaluations, {len(states)} distinct non-trivial "
          f"situations, {len(specs)} jobs, {time.time() - t0:.1f}s; observed {counters}")
    if new:
        outdir.mkdir(parents=True, exist_ok=True)
        shown = set()
        for i, (s, v) in enumerate(new):
            if v["key"] in shown:
                continue
            shown.add(v["key"])
            rp = outdir / f"replay_{tier}_{seed}_{len(shown)}.json"
            job = {k: x for k, x in s.items() if k != "scratch"}
            rp.write_text(json.dumps({"property": prop, "job": job, "violation": v}, indent=1))
            print(f"  [{s['name']}] {v['key']}: {v['what'][:600]}")
            print(f"VIOLATION property={prop} replay={rp.relative_to(VERIF)}")
            if len(shown) >= 8:
                break
        sys.exit(1)
    if errors:
        for n, e in errors[:4]:
            print(f"INCONCLUSIVE job {n}:\n{e[-1800:]}", file=sys.stderr)
        sys.exit(2)
    if missing:
        print(f"INCONCLUSIVE: monitors not reached: {missing}", file=sys.stderr)
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
