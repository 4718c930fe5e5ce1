"""C13 precipitation partition."""
import numpy as np

from checks.common import FULL, VARIANTS, judge_trace, specs
from harness import ref

RULE = ("every step of whole-model runs, all precipitation forcing sets (RRR, SNOWFALL, both, forced total "
        "precipitation), amounts at and around the thresholds; distinct by rounded precipitation, temperature, wind.")
REQUIRED = {"traces": 10, "snow": 80, "rain": 80, "mixed_phase": 12, "below_threshold": 20, "dry": 100}


def jobs(tier, seed):
    out = specs(["default", "tuned", "constant", "physics", "dt3h", "empirical"], "whole", tier, budget=(8, 80))
    force = specs(["default", "tuned"], "whole", tier, budget=(8, 80))
    for s in force:
        s["config"] = dict(FULL, FORCINGS={"force_use_TP": True})
        s["name"] += "-totalprec"
        s["params"] = dict(s["params"], TP=True)
    return out + force


SETS = (("RRR", "N"), ("SNOWFALL", "LWin"), ("SNOWFALL", "RRR", "N"))


def whole(job):
    C, r = job.C, job.rng
    thr = C["minimum_snowfall"]

    def extra(job, t, act, exp, now, end, st, ds, info):
        snow_raw, rain_raw, rho = st["margin"]
        P = ref_total(ds, t, C, act)
        ctx = {"info": info, "t": t, "reported": act, "raw": [snow_raw, rain_raw, rho]}
        job.expect(act["SNOWFALL"] >= 0 and act["RAIN"] >= 0, "negative", "negative precipitation", ctx)
        if P is not None:
            lost = P - act["SNOWFALL"] - act["RAIN"] / 1000.0
            # at most what the two reporting thresholds suppress may be missing
            lim = 2 * thr * rho / C["water_density"] + 1e-9
            if snow_raw >= 0 and rain_raw >= 0:
                job.expect(-1e-9 - 2e-3 * P <= lost <= lim + 2e-3 * P, "total",
                           f"{P!r} m w.e. fell, {act['SNOWFALL']!r} snow + {act['RAIN'] / 1000!r} rain reported", ctx)
        h = act["SNOWFALL"] * C["water_density"] / rho
        job.expect(h == 0 or h >= thr * (1 - 1e-9), "threshold", f"snowfall of {h!r} m below the threshold", ctx)
        job.count("snow", act["SNOWFALL"] > 0)
        job.count("rain", act["RAIN"] > 0)
        job.count("mixed_phase", act["SNOWFALL"] > 0 and act["RAIN"] > 0)
        job.count("below_threshold", (0 < snow_raw < thr) or 0 < rain_raw < thr * rho)
        job.count("dry", snow_raw <= 0 and rain_raw <= 0)

    def sig(act, exp, st, now):
        return tuple(round(x, 5) for x in st["margin"]) if max(st["margin"][:2]) > 0 else None

    if job.params.get("TP"):
        kw = dict(variables=("SNOWFALL", "RRR", "N"))
    else:
        kw = {}
    judge_trace(job, ["SNOWFALL", "RAIN"], extra=extra, interesting=sig, atol=1e-10, **kw)


def ref_total(ds, t, C, act):
    """Total precipitation (m w.e.) when it is what drives the model."""
    if "SNOWFALL" in ds and "RRR" not in ds:
        return None
    return float(ds["RRR"].values[t]) * C["mult_factor_RRR"] / 1000.0
