"""C09 penetrating shortwave radiation: energy split and melt ledger."""
import numpy as np

from checks.common import as_ref, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns x net shortwave 0.1..1100 W m-2 x dt up to 1 day (melt-through of thin "
        "layers); non-trivial when some layer warmed. trace: whole-model daytime steps. Distinct by "
        "rounded column state, flux and dt.")
REQUIRED = {"drive.calls": 200, "drive.melted": 80, "drive.warm_only": 20, "drive.ice_top": 20,
            "drive.melt_through": 5, "traces": 4, "trace.subm_steps": 10}


def jobs(tier, seed):
    return (specs(["default", "tuned", "physics"], "drive", tier, budget=(10, 80)) +
            specs(["default", "adaptive", "dt3h"], "whole", tier))


def drive(job):
    from cosipy.modules.penetratingRadiation import penetrating_radiation

    C, r = job.C, job.rng
    zt, ci, ri, rw, L = (C["zero_temperature"], C["spec_heat_ice"], C["ice_density"],
                         C["water_density"], C["lat_heat_melting"])
    for i, c in columns(job):
        n = len(c["h"])
        sw = float(r.choice([0.1, r.uniform(1, 300), r.uniform(300, 1100)]))
        dt = int(r.choice([900, 3600, 3600, 10800]))
        if i % 3 == 0:
            c["T"] = zt - np.where(r.random(n) < 0.5, 0.0, r.uniform(0, 2, n))
        if i % 8 == 0 and c["nsnow"]:         # layers that melt through
            c["h"][0] = 0.0012
            c["ifr"][0] = 0.06
            c["lwc"][0] = float(r.choice([0.0, 0.03]))
            c["T"][0] = zt
            dt, sw = 86400, 1000.0
        if i % 17 == 3 and c["nsnow"]:
            c["ifr"][0] = (C["snow_ice_threshold"] - 1) / 917
            c["lwc"][0] = 0.0
        g = gen.make_grid(c)
        pre = as_ref(c)
        subm, Si = (float(x) for x in penetrating_radiation(g, sw, dt))
        post = grid_ref(g)
        job.count("drive.calls")
        ctx = lambda: {"column": c, "SWnet": sw, "dt": dt, "returned": [subm, Si], "after": post}
        rho0 = ref.density(pre, C)
        snow = rho0[0] <= C["snow_ice_threshold"]
        job.count("drive.ice_top", not snow)
        job.expect(ref.close(Si, (0.1 if snow else 0.2) * sw, 1e-12), "split",
                   f"penetrating part {Si!r} of SWnet {sw!r} over {'snow' if snow else 'ice'}", ctx)
        ice = float(np.sum(pre["ifr"] * pre["h"]) - np.sum(post["ifr"] * post["h"])) * ri / rw
        wat = float(np.sum(post["lwc"] * post["h"]) - np.sum(pre["lwc"] * pre["h"]))
        job.expect(abs(ice - wat) <= 1e-10, "mass", f"ice lost {ice!r} m w.e., water gained {wat!r}", ctx)
        job.expect(abs(subm - wat) <= 1e-10, "reported-melt",
                   f"reported subsurface melt {subm!r} m w.e., water gained {wat!r}", ctx)
        job.expect(subm >= 0 and np.all(post["lwc"] >= 0) and np.all(post["h"] > 0), "sign",
                   "negative subsurface melt, water or height", ctx)
        job.expect(np.all(post["T"] <= np.maximum(zt, pre["T"].max()) + 1e-9), "melting-point",
                   "radiation heated a layer above the melting point", ctx)
        job.expect(len(post["h"]) and post["h"][-1] == pre["h"][-1] and post["T"][-1] == pre["T"][-1],
                   "bottom", "radiation changed the deepest layer", ctx)
        # energy: heat stored plus melt never exceeds the penetrating energy
        if len(post["h"]) == n:
            stored = float(np.sum((post["T"] - pre["T"]) * rho0 * ci * pre["h"])) + subm * rw * L
            job.expect(stored <= Si * dt * (1 + 1e-9) + 1e-6, "energy",
                       f"column gained {stored!r} J m-2 from {Si * dt!r}", ctx)
            job.expect(np.all(post["T"] >= pre["T"] - 1e-12), "cooling", "radiation cooled a layer", ctx)
        else:
            job.count("drive.melt_through")
        job.count("drive.melted" if subm > 0 else "drive.warm_only")
        job.expect(post["props"] == pre["props"], "age", "radiation changed the snow age", ctx)
        es, em, eS = ref.penetrating(pre, sw, dt, C)
        d = ref.diff(post, es)
        job.expect(d is None and ref.close(subm, em, 1e-9, 1e-13), "absorption",
                   f"absorption profile: {d or f'melt {subm!r}, expected {em!r}'}", ctx)
        job.evaluated(9, (gen.signature(c), round(sw), dt))
        job.sample({"SWnet": sw, "dt": dt, "subM": subm, "Si": Si, "T": pre["T"][:4]})


def whole(job):
    def sig(act, exp, st, now):
        job.count("trace.subm_steps", act["subM"] > 0)
        return (round(act["subM"], 9), len(now["h"])) if act["subM"] > 0 else None

    def extra(job, t, act, exp, now, end, st, ds, info):
        G = float(ds["G"].values[t])
        job.expect(act["subM"] == 0 or G > 0, "night", f"subsurface melt without radiation at step {t}", info)

    judge_trace(job, ["subM"], extra=extra, state=("T", "lwc"), interesting=sig)
