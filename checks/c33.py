"""C33 causality and calendar independence."""
import numpy as np

from checks.common import specs
from harness import trace
from checks.c24 import digest

RULE = ("random whole-model runs compared with (a) the run truncated at random steps, (b) the run with all later "
        "forcing replaced, (c) the same weather at another date/year; everything up to the cut compared bitwise. "
        "Distinct by case and cut.")
REQUIRED = {"cases": 10, "truncated": 20, "future_changed": 20, "shifted": 10}
NAMES = ["default", "bougamont", "MO", "adaptive-loose", "vionnet", "dt3h"]
ARR = [n for n in trace.NAMES if n not in ("RESTART", "stake_names", "stat", "df", "indY", "indX")]


def jobs(tier, seed):
    return specs(NAMES, "prefix", tier, budget=(10, 90))


def cmp(job, a, b, k, key, what, info):
    for n in ARR:
        x, y = a[n], b[n]
        if x is None and y is None:
            continue
        if not np.array_equal(np.asarray(x[:k], float), np.asarray(y[:k], float), equal_nan=True):
            i = int(np.argmax([not np.array_equal(np.asarray(x[t], float), np.asarray(y[t], float), equal_nan=True) for t in range(k)]))
            job.violation(key, f"{what}: {n} differs at step {i} (cut at {k})", {"info": info, "cut": k})
            return


def prefix(job):
    rng = job.rng
    while job.time_left() > 0 or job.counters.get("cases", 0) < 2:
        nt = int(rng.integers(8, 36))
        ds, info = trace.random_case(job, nt)
        tr = trace.run(ds)
        job.count("cases")
        for k in sorted(set(int(x) for x in rng.integers(1, nt, 2))):
            part = trace.run(ds.isel(time=slice(0, k)))
            cmp(job, tr, part, k, "truncated", "shorter run", info)
            R = part["RESTART"]
            n = int(R["NLAYERS"].values)
            last = trace.state(tr, k - 1)
            ok = n == len(last["h"]) and all(np.array_equal(R[v].values[:n], last[f]) for v, f in
                                             (("LAYER_HEIGHT", "h"), ("LAYER_T", "T"), ("LAYER_LWC", "lwc"), ("LAYER_IF", "ifr")))
            job.expect(ok, "truncated:restart", f"restart state of the shorter run is not the state after step {k - 1}", {"info": info})
            job.count("truncated")
            other, _ = trace.random_case(job, nt, variables=info["variables"])
            fut = ds.copy(deep=True)
            for v in fut.data_vars:
                if "time" in fut[v].dims:
                    fut[v].values[k:] = other[v].values[k:]
            cmp(job, tr, trace.run(fut), k, "future", "run with another future", info)
            job.count("future_changed")
            job.evaluated(2 * len(ARR), (info["start"], info["flavour"], k))
        sh = ds.assign_coords(time=ds.time.values + np.timedelta64(int(rng.integers(-400, 40000)) * 86400 + int(rng.integers(24)) * 3600, "s"))
        cmp(job, tr, trace.run(sh), nt, "calendar", "same weather at another date", info)
        job.count("shifted")
        job.evaluated(len(ARR), (info["start"], "shift", str(sh.time.values[0])))
        job.sample({"case": info, "nt": nt})
