"""Runs one job (one configuration of the code under test) in this process.

usage: python -m harness.worker SPEC.json OUT.json
"""
import hashlib
import importlib
import json
import os
import pathlib
import sys
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
MAX_VIOL = 25


class CodeFailure(Exception):
    """The code under test raised where it had to complete."""


class Job:
    def __init__(self, spec, scratch):
        import numpy as np

        self.np = np
        self.spec = spec
        self.params = spec.get("params", {})
        self.tier = spec.get("tier", "quick")
        self.seed = spec["seed"]
        self.scratch = pathlib.Path(scratch)
        self.rng = np.random.default_rng(self.seed)
        self.counters = {}
        self.states = set()
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.t0 = time.time()
        self.budget = spec.get("budget_s", 30.0)
        self.config = None
        self.constants = None

    # -- observation bookkeeping -------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def evaluated(self, n=1, state=None):
        """`n` oracle evaluations; `state` = signature of the distinct,
        non-trivial situation that was judged (None: trivial)."""
        self.evaluations += int(n)
        if state is not None:
            self.states.add(
                hashlib.blake2b(repr(state).encode(), digest_size=8).hexdigest()
            )

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(plain(obj))

    def violation(self, key, what, witness=None):
        self.count("violations")
        same = sum(1 for v in self.violations if v["key"] == key)
        if same < 3 and len(self.violations) < MAX_VIOL:
            self.violations.append(
                {"key": key, "what": str(what)[:1500], "witness": plain(witness)}
            )

    def expect(self, ok, key, what, witness=None):
        if not ok:
            self.violation(key, what() if callable(what) else what, witness() if callable(witness) else witness)
        return bool(ok)

    def time_left(self):
        return self.budget - (time.time() - self.t0)


def plain(o, depth=0):
    import numpy as np

    if o is None or isinstance(o, (bool, int, str)):
        return o
    if isinstance(o, (float, np.floating)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return [plain(x) for x in o.ravel()[:200].tolist()]
    if isinstance(o, dict):
        return {str(k): plain(v, depth + 1) for k, v in list(o.items())[:80]}
    if isinstance(o, (list, tuple, set)):
        return [plain(x, depth + 1) for x in list(o)[:200]]
    return repr(o)[:400]


def repo_fault(exc):
    """True when the exception was raised by the code under test (rather than
    by the harness misusing it or by the harness itself)."""
    frames = traceback.extract_tb(exc.__traceback__)
    last_repo = last_harness = -1
    for i, f in enumerate(frames):
        if f.filename.startswith(str(REPO) + os.sep):
            last_repo = i
        elif f.filename.startswith(str(VERIF) + os.sep):
            last_harness = i
    return last_repo > last_harness


def fault_site(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    for f in reversed(frames):
        if f.filename.startswith(str(REPO) + os.sep):
            return f"{pathlib.Path(f.filename).name}:{f.name}"
    return "?"


def prepare(spec, scratch):
    """Write this job's configuration, point the code under test at it."""
    from harness import tomlw

    here = VERIF / "harness"
    cfg = tomlw.load(REPO / "config.toml")
    cfg = tomlw.merge(cfg, tomlw.load(here / "base_config.toml"))
    cfg = tomlw.merge(cfg, spec.get("config") or {})
    con = tomlw.load(REPO / "constants.toml")
    con = tomlw.merge(con, tomlw.load(here / "base_constants.toml"))
    con = tomlw.merge(con, spec.get("constants") or {})
    cdir = pathlib.Path(scratch) / "cfg"
    cdir.mkdir(parents=True, exist_ok=True)
    data = pathlib.Path(scratch) / "data"
    (data / "input").mkdir(parents=True, exist_ok=True)
    if not (spec.get("config") or {}).get("data_path"):
        cfg["FILENAMES"]["data_path"] = str(data) + "/"
    tomlw.dump(cfg, cdir / "config.toml")
    tomlw.dump(con, cdir / "constants.toml")
    tomlw.dump(tomlw.load(here / "base_slurm.toml"), cdir / "slurm_config.toml")
    sys.argv = [
        "COSIPY.py",
        "-c", str(cdir / "config.toml"),
        "-x", str(cdir / "constants.toml"),
        "-s", str(cdir / "slurm_config.toml"),
    ]
    os.environ["COSIPY_DIR"] = str(cdir)
    return cfg, con


def main():
    spec = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    scratch = spec["scratch"]
    os.makedirs(scratch, exist_ok=True)
    sys.path.insert(0, str(VERIF))
    sys.path.insert(0, str(REPO))
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    cfg, con = prepare(spec, scratch)
    os.chdir(scratch)
    mode = spec.get("mode", "interp")
    if mode == "interp":
        from harness import shim

        shim.install()
    import numpy as np

    np.seterr(all="ignore")
    job = Job(spec, scratch)
    from harness import tomlw

    job.cfg, job.con = cfg, con
    job.C = tomlw.flat(con)
    res = {"status": "ok"}
    try:
        mod = importlib.import_module(spec["module"])
        getattr(mod, spec["func"])(job)
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if (repo_fault(e) or isinstance(e, CodeFailure)) and spec.get("crash_is_violation", True):
            job.violation(
                f"raised:{type(e).__name__}@{fault_site(e)}",
                f"the code under test raised {type(e).__name__}: {e}",
                {"traceback": tb[-3000:]},
            )
        else:
            res = {"status": "error", "error": tb[-6000:]}
    res.update(
        counters=job.counters,
        states=sorted(job.states),
        evaluations=job.evaluations,
        samples=job.samples,
        violations=job.violations,
        notes=job.notes,
        wall=time.time() - job.t0,
    )
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
