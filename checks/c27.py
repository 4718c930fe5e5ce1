"""C27 stepwise coupled runs equal stand-alone runs."""
import types

import numpy as np
import xarray as xr

from checks.common import VARIANTS, specs
from harness import ref, trace

RULE = ("random weather advanced one step at a time through the coupling interface (state handed back in every step, "
        "random step length, measurement height and layer capacity) against the stand-alone run of the same code and "
        "against the reference step; distinct by rounded state and weather.")
REQUIRED = {"cases": 6, "steps": 120, "snowfall": 10, "melt": 10}
KEYS = ("LWout H LE B QRR MB surfMB Q SNOWHEIGHT TOTALHEIGHT TS ALBEDO NLAYERS ME intMB EVAPORATION SUBLIMATION "
        "CONDENSATION DEPOSITION REFREEZE subM Z0 surfM NEWH NEWT OLDT").split()
V = ["default", "adaptive-loose", "tuned", "physics", "newton", "vionnet"]


def jobs(tier, seed):
    out = specs(V, "coupled", tier, budget=(10, 90))
    for s in out:
        s["config"] = {"DIMENSIONS": {"WRF_X_CSPY": True}}
    return out


class Val:
    def __init__(self, v):
        self.values = np.asarray(v)


def state_in(tr, rng):
    """The state handed back by the previous call, as the coupler does."""
    d = dict(NLAYERS=tr["NLAYERS"], new_snow_height=tr["NEWH"], new_snow_timestamp=tr["NEWT"],
             old_snow_timestamp=tr["OLDT"], LAYER_HEIGHT=tr["LAYER_HEIGHT"], LAYER_RHO=tr["LAYER_RHO"],
             LAYER_T=tr["LAYER_T"], LAYER_LWC=tr["LAYER_LWC"], LAYER_IF=tr["LAYER_ICE_FRACTION"])
    if rng.random() < 0.5:
        return types.SimpleNamespace(**{k: Val(v) for k, v in d.items()})
    return xr.Dataset({k: (("layer",), v) if np.ndim(v) else ((), float(v)) for k, v in d.items()})


def coupled(job):
    from cosipy.config import Config
    from cosipy.constants import Constants
    import cosipy.cpkernel.cosipy_core as cc  # noqa: F401

    rng = job.rng
    job.expect(Constants.albedo_method == "Oerlemans98" and Constants.stability_correction == "MO" and Config.full_field is True,
               "mode", "coupled mode does not force its documented settings")
    job.C["stability_correction"] = "MO"
    job.C["albedo_method"] = "Oerlemans98"
    while job.time_left() > 0 or job.counters.get("cases", 0) < 1:
        nt = int(rng.integers(12, 40))
        dt = int(rng.choice([60, 600, 1800, 3600]))
        z = float(rng.choice([2.0, rng.uniform(2, 30)]))
        ml = int(rng.choice([150, 200, 320]))
        ds, info = trace.random_case(job, nt)
        # stand-alone run with the coupled settings
        old = Config.WRF_X_CSPY, Constants.dt, Constants.max_layers, Constants.z, job.C["dt"], job.C["z"]
        try:
            Config.WRF_X_CSPY, Constants.dt, Constants.max_layers, Constants.z = False, dt, ml, z
            alone = trace.run(ds)
        finally:
            Config.WRF_X_CSPY, Constants.dt, Constants.max_layers, Constants.z = old[:4]
        st = None
        job.count("cases")
        job.C.update(_coupled=True, dt=dt, z=z, max_layers=ml)
        for t, act, exp, now, end, stg in trace.walk(job, ds, alone):
            for k in ("LWout", "H", "LE", "B", "QRR"):
                job.expect(ref.close(act[k], exp[k], 1e-7, 1e-8), f"flux:{k}",
                           f"{k}={act[k]!r} with the coupled settings, documented formula gives {exp[k]!r} (step {t})",
                           lambda: {"info": info, "t": t, "dt": dt, "z": z})
            job.evaluated(5)
        for t in range(nt):
            one = ds.isel(time=slice(t, t + 1)).copy(deep=True)
            one["DT"], one["max_layers"], one["ZLVL"] = float(dt), ml, z
            tr = trace.run(one, st)
            job.count("steps")
            job.count("snowfall", alone["SNOWFALL"][t] > 0)
            job.count("melt", alone["surfM"][t] > 0)
            ctx = lambda: {"info": info, "t": t, "dt": dt, "z": z, "weather": {k: float(one[k].values[0]) for k in one.data_vars if one[k].dims == ("time",)}}
            bad = [k for k in KEYS if not ref.close(float(tr[k]), float(alone[k][t]), 1e-10, 1e-13)]
            n = int(tr["NLAYERS"])
            for k in ("LAYER_HEIGHT", "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_ICE_FRACTION"):
                a, b = np.asarray(tr[k], float), np.asarray(alone[k][t] if alone[k] is not None else np.full(ml, np.nan), float)
                if alone[k] is not None and not np.allclose(a[:n], b[:n], rtol=1e-10, atol=1e-13):
                    bad.append(k)
                if len(a) != ml or not np.all(np.isnan(a[n:])) or np.any(np.isnan(a[:n])):
                    bad.append(k + "[extent]")
            if not job.expect(not bad, "step", f"coupled step {t} differs from the stand-alone run in {bad[:6]}", ctx):
                break
            job.evaluated(len(KEYS) + 5, (info["flavour"], dt, round(float(tr["TS"]), 3), round(float(tr["SNOWHEIGHT"]), 4), n))
            # reference of this step (coupled stability functions)
            st = state_in(tr, rng)
        job.sample({"case": info, "dt": dt, "z": z, "max_layers": ml})
