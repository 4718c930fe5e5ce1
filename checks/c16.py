"""C16 fresh snow and the snow-age clock."""
import numpy as np

from checks.common import as_ref, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns x fresh snow height/density/temperature, and melt of fresh snow; trace: fresh "
        "snow height and both age clocks of every whole-model step. Distinct by rounded inputs or clocks.")
REQUIRED = {"drive.calls": 200, "drive.melts": 100, "traces": 8, "trace.snowfall": 40, "trace.dry": 200}


def jobs(tier, seed):
    return (specs(["default", "tuned"], "drive", tier, budget=(6, 40)) +
            specs(["default", "tuned", "adaptive", "dt900", "dt-day", "constant"], "whole", tier, budget=(8, 80)))


def drive(job):
    C, r = job.C, job.rng
    for i, c in columns(job):
        dt = int(r.choice([900, 3600, 86400]))
        h = float(r.choice([C["minimum_snowfall"], r.uniform(0.0011, 0.02), r.uniform(0.01, 0.3)]))
        h = max(h, C["minimum_snowfall"])
        rho = float(r.uniform(50, 350))
        T = float(r.uniform(245, C["zero_temperature"]))
        g = gen.make_grid(c)
        pre = as_ref(c)
        g.add_fresh_snow(h, rho, T, 0.0, dt)
        post = grid_ref(g)
        ctx = lambda: {"column": c, "height": h, "density": rho, "T": T, "dt": dt, "after": post}
        job.count("drive.calls")
        n = len(c["h"])
        if len(post["h"]) != n + 1:
            job.violation("drive:layer", f"{len(post['h'])} layers after adding snow to {n}", ctx())
            continue
        d = ref.diff(ref.col(post["h"][1:], post["T"][1:], post["lwc"][1:], post["ifr"][1:]), pre, rtol=0, atol=0)
        job.expect(d is None, "drive:below", f"snowfall changed the column below: {d}", ctx)
        job.expect(ref.close(post["h"][0], h) and ref.close(post["T"][0], T) and post["lwc"][0] == 0,
                   "drive:new-layer", "new layer lacks the given height, temperature or dryness", ctx)
        m = post["h"][0] * ref.density(post, C)[0]
        job.expect(ref.close(m, h * rho, 1e-4), "drive:mass", lambda: f"new layer weighs {m!r}, fell {h * rho!r}", ctx)
        job.expect(ref.close(post["props"], (h, 0.0, pre["props"][1]), 1e-12), "drive:clock",
                   lambda: f"fresh snow state {post['props']}, expected {(h, 0.0, pre['props'][1])}", ctx)
        # dry step
        g2 = gen.make_grid(c)
        g2.set_fresh_snow_props_update_time(dt)
        e = (pre["props"][0], pre["props"][1] + dt, pre["props"][2] + dt)
        job.expect(ref.close(grid_ref(g2)["props"], e, 1e-12), "drive:tick", "clock does not advance by the step", ctx)
        # melt of the fresh snow: its tracked height must shrink
        swe = h * rho / C["water_density"]
        melt = swe * float(r.choice([0.3, 0.999, 1.5]))
        before = post["props"][0]
        g.remove_melt_weq(melt)
        after = grid_ref(g)["props"][0]
        job.count("drive.melts")
        job.expect(after <= before + 1e-12, "drive:growth", f"melt raised the fresh snow height {before!r} -> {after!r}", ctx)
        if after == before:
            job.violation("fresh-snow-not-consumed", f"fresh snow height stays {after!r} m after melting {melt!r} "
                          f"of its {swe!r} m w.e.", ctx())
        job.evaluated(7, (round(h, 4), round(rho), round(T, 1), n))
        job.sample({"fresh": [h, rho, T], "state": post["props"]})


def whole(job):
    C = job.C
    since = {}

    def extra(job, t, act, exp, now, end, st, ds, info):
        if t == 0:
            since.clear()
        if act["SNOWFALL"] > 0:
            since["t"] = 0
            job.count("trace.snowfall")
            job.expect(act["NEWT"] == 0, "step:reset", f"snow age {act['NEWT']!r} s in a step with snowfall", info)
        else:
            job.count("trace.dry")
            if "t" in since:
                since["t"] += C["dt"]
                job.expect(ref.close(act["NEWT"], since["t"], 1e-12), "step:age",
                           f"snow age {act['NEWT']!r} s, last snowfall was {since['t']} s ago (step {t})", info)
        job.expect(act["OLDT"] >= act["NEWT"] - 1e-9, "step:order", "older snow younger than the fresh snow", info)

    judge_trace(job, ["NEWH", "NEWT", "OLDT"], extra=extra,
                interesting=lambda act, exp, st, now: (round(act["NEWH"], 5), act["NEWT"], act["OLDT"]))
