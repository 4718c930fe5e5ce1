"""C03 percolation: conservation, drainage and locality."""
import numpy as np

from checks.common import as_ref, bucket, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random and hostile columns (dry/wet/saturated/thin/firn/bare ice) x random surface "
        "water; non-trivial when water is added or any layer exceeds its retention. trace: steps of "
        "whole-model runs; non-trivial when liquid water is present. Distinct by rounded column state.")
REQUIRED = {"drive.calls": 200, "drive.flow": 100, "traces": 4, "trace.runoff_steps": 5}


def jobs(tier, seed):
    return (specs(["default", "tuned"], "drive", tier) +
            specs(["default", "adaptive", "dt3h", "tuned"], "whole", tier))


def drive(job):
    from cosipy.modules.percolation import percolation

    C = job.C
    for i, c in columns(job):
        if i % 11 == 0:                       # layer exactly at its retention
            c["lwc"] = np.where(c["ifr"] < 0.85, ref.irreducible(c["ifr"]), 0.0)
        if i % 13 == 0:                       # water already in ice layers
            c["lwc"] = np.where(c["ifr"] > 0.99, 0.004, c["lwc"])
        w = float(job.rng.choice([0.0, 1e-7, job.rng.uniform(0, 0.005), job.rng.uniform(0, 0.08)]))
        if i % 5 == 0:
            c["ifr"][0] = float(job.rng.choice([0.1, 0.23, 0.2300001, 0.5, 0.812, 0.8120001, 0.9]))
            c["lwc"][0] = min(c["lwc"][0], 0.05)
        g = gen.make_grid(c)
        pre = as_ref(c)
        q = float(percolation(g, w, C["dt"]))
        post = grid_ref(g)
        job.count("drive.calls")
        irr = ref.irreducible(c["ifr"])
        flow = w > 0 or bool(np.any(c["lwc"] > irr))
        job.count("drive.flow", flow)
        ctx = lambda: {"column": c, "water": w, "Q": q, "after": post}
        W0 = float(np.sum(c["lwc"] * c["h"])) + w
        if len(post["h"]) != len(c["h"]):
            job.violation("structure", "percolation changed the number of layers", ctx())
            continue
        W1 = float(np.sum(post["lwc"] * post["h"])) + q
        job.expect(abs(W0 - W1) <= 1e-9 * max(1e-3, W0), "water-conservation",
                   f"water before+added {W0!r} m, after+runoff {W1!r} m", ctx)
        job.expect(np.all(post["lwc"][:-1] <= np.maximum(irr[:-1], 0) + 1e-12), "retention",
                   "a layer keeps more than its irreducible water content", ctx)
        job.expect(post["lwc"][-1] == 0.0, "bottom", "bottom layer was not drained", ctx)
        job.expect(np.all(post["lwc"] >= 0) and q >= 0, "negative", "negative water", ctx)
        for k in ("h", "T", "ifr"):
            job.expect(np.array_equal(post[k], pre[k]), f"touched:{k}", f"percolation changed {k}", ctx)
        job.expect(post["props"] == pre["props"], "touched:age", "percolation changed the snow age", ctx)
        # water stops at the first layers able to retain it
        cum0 = np.cumsum(c["lwc"] * c["h"]) + w
        cum1 = np.cumsum(post["lwc"] * post["h"])
        job.expect(np.all(cum1 <= cum0 + 1e-12), "upward", "water moved upwards", ctx)
        es, eq = ref.percolate(pre, w)
        d = ref.diff(post, es)
        job.expect(d is None and ref.close(q, eq, 1e-9, 1e-13), "bucket",
                   f"not the bucket scheme: {d or f'Q={q!r}, expected {eq!r}'}", ctx)
        job.evaluated(7, gen.signature(c) + (round(w, 6),) if flow else None)
        job.sample({"column": {k: c[k][:6] for k in ("h", "lwc", "ifr")}, "water": w, "Q": q})


def whole(job):
    def sig(act, exp, st, now):
        job.count("trace.runoff_steps", act["Q"] > 0)
        w = float(np.sum(now["lwc"] * now["h"]))
        return (len(now["h"]), round(w, 6), round(act["Q"], 7)) if w > 0 or act["Q"] > 0 else None

    def extra(job, t, act, exp, now, end, st, ds, info):
        job.expect(act["Q"] >= 0, "runoff-sign", f"negative runoff {act['Q']} at step {t}", info)

    judge_trace(job, ["Q"], extra=extra, state=("lwc",), interesting=sig)
