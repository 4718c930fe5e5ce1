"""C12 mass-balance bookkeeping of every reported step."""
import numpy as np

from checks.common import specs, traces
from harness import ref, trace

RULE = ("every step of whole-model runs over random forcings (cold to hot, all forcing sets) and constants; "
        "identities are evaluated on the reported values alone. Distinct by rounded reported values; "
        "trivial (not counted) when all mass terms are zero.")
REQUIRED = {"traces": 10, "melt": 100, "sublimation": 100, "deposition": 30, "evaporation": 30,
            "condensation": 5, "refreeze": 50, "snowfall": 50}
NAMES = ["default", "adaptive", "MO", "dt3h", "physics", "tuned", "newton", "bougamont"]


def jobs(tier, seed):
    return specs(NAMES, "whole", tier, budget=(9, 90))


def whole(job):
    C = job.C
    dt, rw, zt = C["dt"], C["water_density"], C["zero_temperature"]
    for info, ds, tr in traces(job):
        nt = len(tr["TS"])
        for t in range(nt):
            a = {k: float(tr[k][t]) for k in trace.SCALARS}
            ctx = lambda: {"info": info, "t": t, "reported": a}
            c = lambda x, y: ref.close(x, y, 1e-9, 1e-12)
            exp = ref.mass_fluxes(a["TS"], a["LE"], dt, C)
            for k, v in exp.items():
                job.expect(c(a[k], v), f"phase:{k}", lambda: f"{k}={a[k]!r}, latent heat and TS give {v!r}", ctx)
            job.expect(a["SUBLIMATION"] <= 0 and a["EVAPORATION"] <= 0 and a["DEPOSITION"] >= 0
                       and a["CONDENSATION"] >= 0, "phase:sign", "sign of a vapour flux", ctx)
            job.expect(sum(a[k] != 0 for k in exp) <= 1, "phase:exclusive", "two vapour fluxes in one step", ctx)
            Lv = C["lat_heat_sublimation"] if a["TS"] < zt else C["lat_heat_vaporize"]
            job.expect(c(sum(a[k] for k in exp) * rw * Lv / dt, a["LE"]) or ref.close(
                sum(a[k] for k in exp) * rw * Lv / dt, a["LE"], 1e-8, 1e-9), "phase:total",
                "vapour mass does not carry the latent heat flux", ctx)
            m = a["ME"] * dt / (1000.0 * C["lat_heat_melting"])
            job.expect(c(a["surfM"], m) and a["surfM"] >= 0, "surface-melt",
                       lambda: f"surfM={a['surfM']!r}, melt energy gives {m!r}", ctx)
            s = a["SNOWFALL"] - a["surfM"] + a["SUBLIMATION"] + a["DEPOSITION"] + a["EVAPORATION"]
            job.expect(c(a["surfMB"], s), "surface-balance", lambda: f"surfMB={a['surfMB']!r}, terms give {s!r}", ctx)
            i = a["REFREEZE"] - a["subM"]
            job.expect(c(a["intMB"], i), "internal-balance", lambda: f"intMB={a['intMB']!r}, terms give {i!r}", ctx)
            job.expect(c(a["MB"], s + i), "balance", lambda: f"MB={a['MB']!r}, terms give {s + i!r}", ctx)
            job.expect(a["REFREEZE"] >= 0 and a["subM"] >= 0 and a["Q"] >= 0 and a["SNOWFALL"] >= 0
                       and a["RAIN"] >= 0, "sign", "negative mass term", ctx)
            n = int(a["NLAYERS"])
            R = float(np.sum(tr["LAYER_REFREEZE"][t, :n]))
            job.expect(c(a["REFREEZE"], R), "refreeze-sum", lambda: f"REFREEZE={a['REFREEZE']!r}, layers hold {R!r}", ctx)
            for k, n_ in (("melt", a["surfM"] > 0), ("sublimation", a["SUBLIMATION"] < 0),
                          ("deposition", a["DEPOSITION"] > 0), ("evaporation", a["EVAPORATION"] < 0),
                          ("condensation", a["CONDENSATION"] > 0), ("refreeze", a["REFREEZE"] > 0),
                          ("snowfall", a["SNOWFALL"] > 0)):
                job.count(k, n_)
            job.evaluated(15, tuple(round(a[k], 8) for k in ("MB", "surfM", "REFREEZE", "LE")))
        job.sample({"case": info, "MB": tr["MB"][:4]})
