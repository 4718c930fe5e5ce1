"""C05 heat conduction: maximum principle, fixed boundaries, flux-form scheme."""
import numpy as np

from checks.common import as_ref, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns incl. millimetre layers, steep gradients and strong conductivity "
        "contrasts, dt 60 s .. 1 day; non-trivial when the temperatures are not uniform. trace: "
        "whole-model column temperatures. Distinct by rounded column state and dt.")
REQUIRED = {"drive.calls": 150, "drive.substeps>1": 40, "drive.layers3": 3, "drive.no_interior": 5, "traces": 3}


def jobs(tier, seed):
    return (specs(["default", "k-empirical", "physics"], "drive", tier, budget=(14, 90)) +
            specs(["default", "k-empirical", "dt3h", "coarse"], "whole", tier))


def drive(job):
    from cosipy.modules.heatEquation import solveHeatEquation

    C, r = job.C, job.rng
    for i, c in columns(job):
        n = len(c["h"])
        if i % 4 == 1:
            c["T"] = C["zero_temperature"] - np.abs(r.normal(0, 12, n))
        if i % 4 == 2:                        # single hot/cold spike
            c["T"][:] = 265.0
            c["T"][int(r.integers(n))] = float(r.choice([273.16, 230.0]))
        if i % 9 == 3:                        # three layers: one interior point
            c = gen.column(r, nsnow=1, nice=2, flavour="dry")
            job.count("drive.layers3")
            n = 3
        if i % 6 == 4:
            c["h"][: max(1, n // 3)] = r.uniform(0.004, 0.01, max(1, n // 3))
        dt = int(r.choice([60, 900, 3600, 3600, 10800])) if i % 16 else 86400
        if c["flavour"] == "thin":
            dt = min(dt, 3600)
        if i % 13 == 6:                       # almost nothing left: no interior layer
            k = int(r.integers(1, 3))
            c = dict(c, **{f: c[f][-k:].copy() for f in ("h", "T", "lwc", "ifr")})
            n = k
            job.count("drive.no_interior")
        g = gen.make_grid(c)
        pre = as_ref(c)
        solveHeatEquation(g, dt)
        post = grid_ref(g)
        job.count("drive.calls")
        ctx = lambda: {"column": c, "dt": dt, "T_after": post["T"]}
        T0, T1 = pre["T"], post["T"]
        if len(T1) != n or not np.all(np.isfinite(T1)):
            job.violation("structure", "layers changed or temperature not finite", ctx())
            continue
        job.expect(T1[0] == T0[0] and T1[-1] == T0[-1], "boundary",
                   f"boundary layer temperature changed: {T0[0]}->{T1[0]}, {T0[-1]}->{T1[-1]}", ctx)
        job.expect(T1.max() <= T0.max() + 1e-9 and T1.min() >= T0.min() - 1e-9, "maximum-principle",
                   f"range [{T0.min()}, {T0.max()}] became [{T1.min()}, {T1.max()}]", ctx)
        for k in ("h", "lwc", "ifr"):
            job.expect(np.array_equal(post[k], pre[k]), f"touched:{k}", f"heat conduction changed {k}", ctx)
        # temperature variation may only shrink (total variation diminishing)
        job.expect(np.abs(np.diff(T1)).sum() <= np.abs(np.diff(T0)).sum() + 1e-8, "variation",
                   "temperature oscillations grew", ctx)
        if n < 3:
            job.evaluated(5)
            continue
        d = ref.diff(post, ref.heat(pre, dt, C), ("T",), 1e-10, 1e-9)
        job.expect(d is None, "scheme", f"temperatures: {d}", ctx)
        K = ref.diffusivity(pre, C)
        dz = 0.5 * (c["h"][:-1] + c["h"][1:])
        job.count("drive.substeps>1", 0.4 * np.min(dz ** 2 / (0.5 * (K[1:] + K[:-1]))) < dt)
        job.evaluated(7, (gen.signature(c), dt) if np.ptp(T0) > 1e-6 else None)
        job.sample({"T": T0[:6], "T_after": T1[:6], "dt": dt})


def whole(job):
    def sig(act, exp, st, now):
        return (len(now["h"]), round(float(now["T"].mean()), 3), round(act["TS"], 2))

    def extra(job, t, act, exp, now, end, st, ds, info):
        s = st["before"]
        job.expect(now["T"][-1] == s["T"][-1], "bottom",
                   f"deepest layer temperature changed at step {t}: {s['T'][-1]} -> {now['T'][-1]}", info) \
            if ref.density(s, job.C)[-1] > 900 and len(now["h"]) > 4 and len(s["h"]) > 4 and \
            abs(st["mesh"]["T"][-1] - s["T"][-1]) == 0 else None

    judge_trace(job, [], extra=extra, state=("T",), interesting=sig)
