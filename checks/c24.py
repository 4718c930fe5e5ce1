"""C24 reproducibility, no leakage between runs, inputs untouched."""
import os
import pickle

import numpy as np

from checks.common import VARIANTS, FULL, specs
from harness import gen, trace

RULE = ("histories of runs in one process: a case is first run in a fresh forked process, then in the parent after a "
        "random sequence of other runs (other weather, restarts, aborted runs); all outputs compared bitwise, input "
        "datasets and settings fingerprinted around every run. Distinct by case and history.")
REQUIRED = {"cases": 8, "reruns": 16, "aborted_between": 3, "restarted": 4, "inputs_fingerprinted": 20}
NAMES = ["default", "bougamont", "MO", "adaptive", "physics", "newton", "tuned"]


def jobs(tier, seed):
    return specs(NAMES, "history", tier, budget=(10, 90))


def digest(tr):
    """All outputs as comparable bytes."""
    out = {}
    for k in trace.NAMES:
        v = tr[k]
        if k == "RESTART":
            for n in sorted(v.variables):
                out["RESTART." + n] = np.asarray(v[n].values).astype("float64" if v[n].dtype.kind == "f" else v[n].dtype).tobytes()
        elif isinstance(v, np.ndarray):
            out[k] = v.astype(float).tobytes()
        elif k in ("indY", "indX"):
            out[k] = repr(v).encode()
    return out


def fingerprint(ds):
    return {n: (ds[n].dtype.str, ds[n].shape, ds[n].values.tobytes(), repr(sorted(ds[n].attrs.items())))
            for n in sorted(ds.variables)}, repr(sorted(ds.attrs.items())), repr(sorted(ds.sizes.items()))


def settings():
    from cosipy.config import Config
    from cosipy.constants import Constants

    return {c.__name__ + "." + k: repr(v) for c in (Config, Constants) for k, v in sorted(vars(c).items())
            if not k.startswith("_") and not callable(v) and not isinstance(v, (classmethod, staticmethod))}


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = pickle.dumps(("ok", fn()))
        except BaseException as e:  # noqa: BLE001
            data = pickle.dumps(("exc", repr(e)))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    kind, v = pickle.loads(data)
    if kind == "exc":
        raise RuntimeError("forked run failed: " + v)
    return v


def run(job, ds, restart=None, what="run"):
    f0, s0 = fingerprint(ds), settings()
    r0 = fingerprint(restart) if restart is not None else None
    try:
        return trace.run(ds, restart)
    finally:
        job.count("inputs_fingerprinted")
        f1 = fingerprint(ds)
        bad = [n for n in f0[0] if f1[0].get(n) != f0[0][n]] + [n for n in f1[0] if n not in f0[0]]
        job.expect(not bad and f0[1:] == f1[1:], "input-changed", f"a run changed its input dataset: {bad}")
        if r0:
            job.expect(fingerprint(restart) == r0, "restart-changed", "a run changed its restart dataset")
        s1 = settings()
        job.expect(s0 == s1, "settings-changed",
                   lambda: f"a run changed settings {[k for k in set(s0) | set(s1) if s0.get(k) != s1.get(k)]}")


def history(job):
    import cosipy.cpkernel.cosipy_core  # noqa: F401  (import before forking)

    rng = job.rng
    while job.time_left() > 0 or job.counters.get("cases", 0) < 2:
        nt = int(rng.integers(6, 30))
        ds, info = trace.random_case(job, nt)
        if rng.random() < 0.3:
            ds["G"].values[:] = np.where(rng.random(nt) < 0.2, -3.0, ds["G"].values)   # clipped inside
        ds["T2"].attrs["units"] = "K"
        restart = None
        if rng.random() < 0.4:
            pre, _ = trace.random_case(job, 5)
            restart = trace.run(pre)["RESTART"]
            job.count("restarted")
        ref_d = forked(lambda: digest(trace.run(ds.copy(deep=True), None if restart is None else restart.copy(deep=True))))
        job.count("cases")
        hist = []
        for k in range(2):
            for _ in range(int(rng.integers(0, 3))):
                other, oi = trace.random_case(job, int(rng.integers(2, 14)))
                if rng.random() < 0.35:
                    other["T2"].values[int(rng.integers(len(other.time)))] = np.nan
                    hist.append("aborted:" + oi["flavour"])
                    try:
                        run(job, other, what="aborted")
                    except Exception:  # noqa: BLE001  (NaN input may or may not abort)
                        pass
                    job.count("aborted_between")
                else:
                    hist.append(oi["flavour"])
                    run(job, other)
            d = digest(run(job, ds, restart))
            bad = [n for n in ref_d if d.get(n) != ref_d[n]]
            job.expect(not bad, "not-reproducible", f"same case, different {bad[:8]} after history {hist}",
                       lambda: {"info": info, "history": hist, "restart": restart is not None})
            job.count("reruns")
            job.evaluated(len(ref_d), (info["start"], info["flavour"], tuple(hist), k))
        job.sample({"case": info, "history": hist, "restart": restart is not None})
