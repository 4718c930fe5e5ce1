"""C18 physical state bounds and consistency of the reported profiles."""
import numpy as np

from checks.common import specs, traces
from harness import ref, trace

RULE = ("every layer of every step reported by whole-model runs (hostile forcings included); distinct by "
        "rounded profile.")
REQUIRED = {"traces": 10, "layers": 5000, "wet_layers": 500, "lens_steps": 20, "warm_snow": 40}
NAMES = ["default", "adaptive", "vionnet", "empirical", "dt3h", "tuned", "physics", "MO", "dt-day", "k-empirical"]


def jobs(tier, seed):
    return specs(NAMES, "whole", tier, budget=(9, 90))


def whole(job):
    C = job.C
    zt = C["zero_temperature"]
    for info, ds, tr in traces(job):
        for t in range(len(tr["TS"])):
            s = trace.state(tr, t)
            a = {k: float(tr[k][t]) for k in trace.SCALARS}
            n = int(a["NLAYERS"])
            ctx = lambda: {"info": info, "t": t, "column": s, "reported": a}
            prof = {k: np.array(tr[k][t], float) for k in trace.NAMES if k.startswith("LAYER_")}
            for k, v in prof.items():
                job.expect(np.all(np.isfinite(v[:n])) and np.all(np.isnan(v[n:])), f"extent:{k}",
                           lambda: f"{k} does not hold exactly the {n} layers at step {t}", ctx)
            f = lambda k: prof["LAYER_" + k][:n]
            job.expect(np.all(f("HEIGHT") > 0), "height", "layer without thickness", ctx)
            job.expect(np.all(f("LWC") >= 0), "water>=0", "negative liquid water", ctx)
            job.expect(np.all((f("ICE_FRACTION") > 0) & (f("ICE_FRACTION") <= 1 + 1e-9)), "ice-fraction",
                       lambda: f"ice fraction {f('ICE_FRACTION')}", ctx)
            job.expect(np.all(f("LWC") + f("ICE_FRACTION") <= 1 + 1e-6), "volume",
                       lambda: f"ice + water fill more than the layer (step {t}): {np.max(f('LWC') + f('ICE_FRACTION'))}", ctx)
            job.expect(np.all(f("T") <= zt + 1e-6), "melting-point",
                       lambda: f"layer at {np.max(f('T'))!r} K at step {t}", ctx)
            job.expect(np.all(f("T") >= 200), "cold", lambda: f"layer at {np.min(f('T'))!r} K", ctx)
            # derived profiles
            for k, v in (("RHO", ref.density(s, C)), ("CC", ref.cold_content(s, C)),
                         ("IRREDUCIBLE_WATER", ref.irreducible(s["ifr"])),
                         ("POROSITY", 1 - s["ifr"] - s["lwc"])):
                job.expect(ref.close(f(k), np.maximum(v, 0) if k == "POROSITY" else v, 1e-8, 1e-5 if k == "CC" else 1e-9)
                           or (k == "POROSITY" and ref.close(f(k), v, 1e-8, 1e-9)), f"derived:{k}",
                           lambda: f"{k} {f(k)[:5]} does not follow from the layer state {np.asarray(v)[:5]} at step {t}", ctx)
            job.expect(ref.close(a["TOTALHEIGHT"], f("HEIGHT").sum()), "total-height", "TOTALHEIGHT is not the column's", ctx)
            job.expect(ref.close(a["SNOWHEIGHT"], ref.snowheight(s, C), 1e-9, 1e-9), "snow-height",
                       lambda: f"SNOWHEIGHT {a['SNOWHEIGHT']!r}, column {ref.snowheight(s, C)!r}", ctx)
            job.expect(0 <= a["SNOWHEIGHT"] <= a["TOTALHEIGHT"] + 1e-9, "heights", "snow deeper than the column", ctx)
            job.expect(0 <= a["ALBEDO"] <= 1 and a["Z0"] > 0 and a["LWout"] < 0, "surface", "surface state", ctx)
            job.expect(220 - 1e-9 <= a["TS"] <= zt + 1e-9, "surface-temperature", f"TS {a['TS']!r}", ctx)
            job.expect(all(np.isfinite(a[k]) for k in a), "finite", lambda: f"non-finite output at step {t}: {a}", ctx)
            job.count("layers", n)
            job.count("warm_snow", "SNOWFALL" in ds and float(ds.SNOWFALL[t]) > 0.02 and float(ds.T2[t]) > zt + 0.1)
            sm = ref.snow_mask(s, C)
            job.count("lens_steps", bool(sm[np.argmin(sm):].any()))
            job.count("wet_layers", int(np.sum(f("LWC") > 0)))
            job.evaluated(22, (n, tuple(np.round(s["T"][:6], 2)), tuple(np.round(s["lwc"][:6], 4))))
        job.sample({"case": info, "T": s["T"][:6], "rho": ref.density(s, C)[:6]})
