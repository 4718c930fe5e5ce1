"""C15 surface roughness."""
import numpy as np

from checks.common import as_ref, columns, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns x snow age around the firn limit; trace: roughness of every whole-model step. "
        "Distinct by rounded roughness, age and surface type.")
REQUIRED = {"drive.calls": 300, "drive.snow": 100, "drive.ice": 40, "drive.capped": 40, "traces": 6,
            "trace.ageing": 100}


def jobs(tier, seed):
    return (specs(["default", "physics"], "drive", tier, budget=(5, 40)) +
            specs(["default", "physics", "dt900", "dt-day", "adaptive"], "whole", tier, budget=(8, 60)))


def drive(job):
    from cosipy.modules.roughness import updateRoughness

    C, r = job.C, job.rng
    for i, c in columns(job):
        lim = (C["roughness_firn"] - C["roughness_fresh_snow"]) / C["aging_factor_roughness"] * 3600
        age = float(r.choice([0.0, r.uniform(0, lim), r.uniform(0, 3 * lim), lim]))
        c["props"] = (float(r.choice([0.1, 0.0, -0.004, r.uniform(-0.01, 0.3)])), age, float(r.choice([age + 1e5, age, 0.0, 3e6])))
        g = gen.make_grid(c)
        pre = as_ref(c)
        z0 = float(updateRoughness(g))
        exp = ref.roughness(pre, C)
        snow = ref.density(pre, C)[0] <= C["snow_ice_threshold"]
        ctx = lambda: {"column": c, "z0": z0, "expected": exp}
        job.expect(ref.close(z0, exp, 1e-9), "drive:roughness", lambda: f"z0={z0!r} m, expected {exp!r}", ctx)
        lo, hi = sorted((C["roughness_fresh_snow"] / 1000, C["roughness_firn"] / 1000))
        if snow:
            job.expect(lo * (1 - 1e-9) <= z0 <= hi * (1 + 1e-9), "drive:range", f"snow roughness {z0!r}", ctx)
        else:
            job.expect(ref.close(z0, C["roughness_ice"] / 1000, 1e-12), "drive:ice", f"ice roughness {z0!r}", ctx)
        job.count("drive.calls")
        job.count("drive.snow" if snow else "drive.ice")
        job.count("drive.capped", snow and age >= lim)
        job.evaluated(3, (round(z0, 8), round(age), bool(snow)))
        job.sample({"age_h": age / 3600, "snow": bool(snow), "z0": z0})


def whole(job):
    C = job.C

    def extra(job, t, act, exp, now, end, st, ds, info):
        job.count("trace.ageing", C["roughness_fresh_snow"] / 1000 < act["Z0"] < C["roughness_firn"] / 1000)

    judge_trace(job, ["Z0"], extra=extra,
                interesting=lambda act, exp, st, now: (round(act["Z0"], 9), round(act["NEWT"])))
