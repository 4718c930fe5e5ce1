"""C17 conservation of mass: column plus boundary fluxes, step by step."""
import numpy as np

from checks.common import VARIANTS, specs, traces
from harness import ref, trace

RULE = ("every step of whole-model runs: change of the reported column mass (ice + liquid water) against the "
        "reported boundary fluxes. Distinct by rounded flux vector; steps without any flux are not counted.")
REQUIRED = {"traces": 10, "steps_with_runoff": 100, "steps_with_snow": 60, "steps_with_melt": 100,
            "steps_with_vapour": 300, "exact": 500, "wet_layers_sublimated": 40}
NAMES = ["default", "adaptive", "adaptive-loose", "vionnet", "empirical", "dt3h", "tuned", "constant", "MO", "coarse"]

THIN = {"dt": 21600, "remesh_method": "adaptive_profile", "first_layer_height": 0.004, "minimum_snow_layer_height": 1e-5,
        "minimum_snowfall": 1e-4, "merge_max": 1}


def jobs(tier, seed):
    out = specs(NAMES, "whole", tier, budget=(9, 90))
    for v in ("dt-day", "adaptive-thin"):        # gales over wet snow: whole layers sublimate
        for j in specs([v if v in VARIANTS else "default"], "whole", tier, budget=(9, 90), params=dict(nt=10, flavour="storm", aged_flavour="wet")):
            out.append(dict(j, name=f"storm-{v}", constants=THIN if v == "adaptive-thin" else j["constants"]))
    return out


def mass(s, C):
    return (ref.ice_mass(s, C) + ref.water_mass(s, C)) / C["water_density"]


def whole(job):
    C = job.C
    kw = {k: v for k, v in job.params.items() if k != "variant"}
    for info, ds, tr in traces(job, **kw):
        for t, a, exp, now, end, st in trace.walk(job, ds, tr):
            b = st["before"]
            dM = mass(now, C) - mass(b, C)
            vap = a["SUBLIMATION"] + a["DEPOSITION"] + a["EVAPORATION"] + a["CONDENSATION"]
            flux = a["SNOWFALL"] + a["RAIN"] / 1000.0 + vap - a["Q"]
            # thin top layers dropped by the remeshing (documented minimum height)
            drop = mass(st["fresh"], C) - mass(st["mesh"], C)
            k = 1 + int(np.sum(st["fresh"]["h"] <= C["minimum_snow_layer_height"]))
            job.expect(drop >= -1e-10 and drop <= k * C["minimum_snow_layer_height"] + 1e-10, "dropped",
                       lambda: f"{drop!r} m w.e. vanished in remeshing", info)
            # the air in snow has mass in the model's densities
            s0 = st["fresh"]
            air = float(np.max(C["air_density"] * ref.air(s0) / (s0["ifr"] * C["ice_density"])))
            moved = a["SNOWFALL"] + a["surfM"] - a["SUBLIMATION"] + abs(a["DEPOSITION"])
            tol = 1e-9 + 1.01 * air * moved
            res = dM - (flux - drop)
            ctx = lambda: {"info": info, "t": t, "before": b, "after": now, "reported": a, "residual": res}
            if abs(res) <= tol:
                job.count("exact")
            elif a["DEPOSITION"] > 0 and abs(res + (a["DEPOSITION"] - min(a["surfM"], a["DEPOSITION"]))) <= tol:
                job.violation("deposition-not-added", f"{a['DEPOSITION']!r} m w.e. of deposition not in the column", ctx())
            elif a["EVAPORATION"] < 0 and abs(res + a["EVAPORATION"]) <= tol:
                job.violation("evaporation-not-removed", f"{-a['EVAPORATION']!r} m w.e. evaporated but still in the column", ctx())
            else:
                job.violation("mass", f"column changed by {dM!r} m w.e., fluxes give {flux - drop!r} "
                              f"(residual {res!r}, step {t}, {info})", ctx())
            s1 = st["irradiated"]
            job.count("wet_layers_sublimated", a["surfM"] == 0 and s1["lwc"][0] > 0 and
                      -a["SUBLIMATION"] >= s1["h"][0] * ref.dens_i(s1, 0, C) / C["water_density"])
            job.count("steps_with_runoff", a["Q"] > 0)
            job.count("steps_with_snow", a["SNOWFALL"] > 0)
            job.count("steps_with_melt", a["surfM"] > 0)
            job.count("steps_with_vapour", vap != 0)
            job.evaluated(2, tuple(round(a[k], 7) for k in ("SNOWFALL", "RAIN", "Q", "LE")) if flux else None)
        job.sample({"case": info, "mass": mass(now, C), "last residual": res})
