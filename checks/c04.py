"""C04 refreezing: mass and energy bounds."""
import numpy as np

from checks.common import as_ref, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns with cold wet layers, saturated layers, layers at the density limit and "
        "at the melting point; non-trivial when some layer holds water. trace: whole-model steps; "
        "non-trivial when water refroze. Distinct by rounded column state.")
REQUIRED = {"drive.calls": 200, "drive.refroze": 100, "drive.limit.water": 20,
            "drive.limit.cold": 20, "drive.limit.density": 5, "drive.again": 100, "traces": 4, "trace.refreeze_steps": 5}


def jobs(tier, seed):
    return (specs(["default", "tuned", "physics"], "drive", tier) +
            specs(["default", "adaptive", "dt3h", "physics"], "whole", tier))


def drive(job):
    from cosipy.modules.refreezing import refreezing

    C = job.C
    zt, ri, rw = C["zero_temperature"], C["ice_density"], C["water_density"]
    cap = (C["snow_ice_threshold"] - C["air_density"]) / (ri - C["air_density"])
    for i, c in columns(job):
        r = job.rng
        n = len(c["h"])
        if i % 3 == 0:                        # cold and wet
            c["T"] = zt - r.uniform(0, 40, n)
            c["lwc"] = np.where(c["ifr"] < 0.97, r.uniform(0, 0.2, n) * (1 - c["ifr"]), 0.0)
        if i % 4 == 0:                        # dense wet firn around the limit
            j = int(r.integers(n))
            c["ifr"][j] = float(r.choice([cap, cap - 1e-4, cap - 0.01, cap + 1e-3]))
            c["lwc"][j] = min(0.01, 1 - c["ifr"][j])
            c["T"][j] = zt - r.uniform(0, 15)
        if i % 7 == 0:
            c["T"][int(r.integers(n))] = zt
        g = gen.make_grid(c)
        for again in range(2):                # the same column twice: nothing may be left over from the first time
            pre = grid_ref(g) if again else as_ref(c)
            if again:
                for k in range(n):
                    if r.random() < 0.5:
                        g.set_node_liquid_water_content(k, 0.0 if r.random() < 0.5 else pre["lwc"][k])
                    if r.random() < 0.3:
                        g.set_node_temperature(k, zt - r.uniform(0, 20))
                pre = grid_ref(g)
                job.count("drive.again")
            tot = float(refreezing(g))
            post = grid_ref(g)
            job.count("drive.calls")
            ctx = lambda: {"column": c, "refrozen": tot, "after": post}
            if len(post["h"]) != n:
                job.violation("structure", "refreezing changed the number of layers", ctx())
                continue
            d = (pre["lwc"] - post["lwc"])
            job.expect(np.all(d >= -1e-15), "thaw", "refreezing created liquid water", ctx)
            job.expect(np.allclose((post["ifr"] - pre["ifr"]) * ri, d * rw, rtol=1e-9, atol=1e-9),
                       "mass", "ice gained differs from the water lost in a layer", ctx)
            job.expect(np.all(post["lwc"] >= 0), "negative", "negative liquid water", ctx)
            job.expect(np.all(post["T"] <= np.maximum(pre["T"], zt) + 1e-9), "melting-point",
                       "refreezing heated a layer above the melting point", ctx)
            job.expect(np.all(post["T"] >= pre["T"] - 1e-12), "cooling", "refreezing cooled a layer", ctx)
            job.expect(np.all(post["ifr"] <= np.maximum(pre["ifr"], cap) + 1e-9), "density-limit",
                       "a layer froze beyond the pore close-off density", ctx)
            job.expect(abs(tot - float(np.sum(d * pre["h"]))) <= 1e-10, "returned",
                       f"returned {tot!r} m w.e., layers lost {float(np.sum(d * pre['h']))!r}", ctx)
            rf = np.array(g.get_refreeze(), float)
            job.expect(np.allclose(rf, d * pre["h"], rtol=1e-9, atol=1e-13), "per-layer",
                       "per-layer refreezing does not match the layer changes", ctx)
            job.expect(np.array_equal(post["h"], pre["h"]) and post["props"] == pre["props"], "touched",
                       "refreezing changed heights or snow age", ctx)
            es, out = ref.refreeze(pre, C)
            dd = ref.diff(post, es)
            job.expect(dd is None, "amount", f"refrozen amount or warming: {dd}", ctx)
            # which limit was active where
            for k in range(n):
                if d[k] > 0:
                    job.count("drive.refroze")
                    if post["lwc"][k] < 1e-15:
                        job.count("drive.limit.water")
                    elif post["ifr"][k] > cap - 1e-9:
                        job.count("drive.limit.density")
                    else:
                        job.count("drive.limit.cold")
            job.evaluated(10, gen.signature(c) if pre["lwc"].any() else None)
            job.sample({"T": c["T"][:5], "lwc": c["lwc"][:5], "ifr": c["ifr"][:5], "refrozen": tot})


def whole(job):
    zt = job.C["zero_temperature"]

    def sig(act, exp, st, now):
        job.count("trace.refreeze_steps", act["REFREEZE"] > 0)
        return (len(now["h"]), round(act["REFREEZE"], 7), round(act["TS"], 2)) if act["REFREEZE"] > 0 else None

    def extra(job, t, act, exp, now, end, st, ds, info):
        job.expect(act["REFREEZE"] >= 0, "sign", f"negative refreezing at step {t}", info)
        job.expect(np.all(now["T"] <= zt + 1e-9), "melting-point",
                   f"column above the melting point after step {t}: {now['T'].max()}", info)

    judge_trace(job, ["REFREEZE"], extra=extra, state=("ifr", "T"), interesting=sig)
