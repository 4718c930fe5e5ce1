"""C06 densification: compaction conserves ice and water mass."""
import numpy as np

from checks.common import as_ref, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random snow/ice columns (dry, wet, thin, deep, bare) x slope 0..80 x dt; non-trivial "
        "when the column has a compactable snow layer. trace: whole-model column heights. Distinct by "
        "rounded column, slope and dt.")
REQUIRED = {"drive.calls": 200, "drive.compacted": 150, "drive.thin_skipped": 10, "drive.bare": 5, "traces": 4}


def jobs(tier, seed):
    return (specs(["default", "vionnet", "empirical", "constant"], "drive", tier) +
            specs(["default", "vionnet", "empirical", "tuned"], "whole", tier))


def drive(job):
    from cosipy.modules.densification import densification

    C, r = job.C, job.rng
    m, th, hm = C["densification_method"], C["snow_ice_threshold"], C["minimum_snow_layer_height"]
    for i, c in columns(job):
        n = len(c["h"])
        slope = float(r.choice([0.0, r.uniform(0, 50), 80.0]))
        dt = int(r.choice([900, 3600, 3600, 10800]))
        if i % 6 == 0 and c["nsnow"] > 1:
            c["h"][int(r.integers(c["nsnow"]))] = float(r.choice([hm, hm * 0.5, hm * 1.01]))
        if i % 10 == 5 and c["nsnow"]:
            c["ifr"][0] = 0.97 * th / 917
            c["lwc"][0] = 0.0
        g = gen.make_grid(c)
        pre = as_ref(c)
        rho0 = ref.density(pre, C)
        exp = ref.densify(pre, slope, dt, C)
        if np.any(exp["ifr"] + exp["lwc"] > 1.2) or np.any(exp["h"] <= 0) or \
                np.any(exp["h"] < 0.2 * pre["h"]):
            job.count("drive.skipped_extreme")     # outside the schemes' range of validity
            continue
        densification(g, slope, dt)
        post = grid_ref(g)
        job.count("drive.calls")
        job.count("drive.bare", rho0[0] >= th)
        ctx = lambda: {"column": c, "slope": slope, "dt": dt, "after": post}
        if len(post["h"]) != n:
            job.violation("structure", "densification changed the number of layers", ctx())
            continue
        for k, what in (("ifr", "ice"), ("lwc", "water")):
            a, b = pre[k] * pre["h"], post[k] * post["h"]
            job.expect(np.allclose(a, b, rtol=1e-9, atol=1e-14), f"{what}-mass",
                       f"{what} mass of a layer changed by up to {np.abs(a - b).max()!r} m", ctx)
        job.expect(np.array_equal(post["T"], pre["T"]) and post["props"] == pre["props"], "touched",
                   "densification changed temperature or snow age", ctx)
        ns = int((rho0 < th).sum())
        fixed = np.arange(n) >= ns
        if m in ("Boone", "Vionnet"):
            fixed |= pre["h"] <= hm
            fixed |= rho0 >= th
            job.count("drive.thin_skipped", np.any(pre["h"][:ns] <= hm))
        elif m == "empirical":
            fixed |= rho0 >= 600.0
            job.count("drive.thin_skipped")
        else:
            fixed[:] = True
            job.count("drive.thin_skipped")
        job.expect(np.array_equal(post["h"][fixed], pre["h"][fixed]), "uncompactable",
                   "a layer that must not compact (ice / too thin / at maximum density) changed height", ctx)
        job.expect(np.all(post["h"] <= pre["h"] + 1e-15), "expansion", "a layer expanded", ctx)
        mv = ~fixed
        job.expect(np.all(post["h"][mv] < pre["h"][mv]), "no-compaction",
                   "a compactable layer did not compact", ctx)
        if m == "empirical":
            dry = (pre["ifr"] * C["ice_density"] + pre["lwc"] * C["water_density"])[mv]
            new = (post["ifr"] * C["ice_density"] + post["lwc"] * C["water_density"])[mv]
            job.expect(np.all(new <= 600.0 + 2.0), "max-density", "empirical compaction beyond 600 kg m-3", ctx)
        d = ref.diff(post, exp)
        job.expect(d is None, "rate", f"compaction: {d}", ctx)
        job.count("drive.compacted", mv.any() if m != "constant" else 1)
        job.evaluated(8, (gen.signature(c), round(slope), dt) if (mv.any() or m == "constant") else None)
        job.sample({"h": c["h"][:5], "ifr": c["ifr"][:5], "h_after": post["h"][:5], "slope": slope})


def whole(job):
    def sig(act, exp, st, now):
        return (len(now["h"]), round(act["SNOWHEIGHT"], 5)) if act["SNOWHEIGHT"] > 0 else None

    judge_trace(job, ["TOTALHEIGHT"], state=("h", "ifr"), interesting=sig)
