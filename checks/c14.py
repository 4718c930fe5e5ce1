"""C14 surface albedo."""
import numpy as np

from checks.common import FULL, VARIANTS, as_ref, columns, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns x snow age x previous surface temperature, albedo laws and the documented "
        "formula; trace: albedo of every whole-model step. Distinct by rounded snow age, snow height, albedo.")
REQUIRED = {"drive.calls": 400, "drive.snow": 200, "drive.ice": 40, "drive.age_corrected": 20,
            "traces": 8, "trace.snow_steps": 200, "trace.ice_steps": 30}
BOUG = dict(VARIANTS["physics"], albedo_method="Bougamont05")


def jobs(tier, seed):
    out = (specs(["default", "physics", "bougamont"], "drive", tier, budget=(7, 60)) +
           specs(["default", "physics", "bougamont", "dt3h", "adaptive"], "whole", tier, budget=(8, 80)))
    for f in ("drive", "whole"):
        s = specs(["bougamont"], f, tier, budget=(8, 60))
        for x in s:
            x["constants"] = BOUG
            x["name"] += "-physics"
            x["params"] = dict(x["params"], variant="bougamont-physics")
        out += s
    return out


def drive(job):
    from cosipy.modules.albedo import updateAlbedo

    C, r = job.C, job.rng
    lo, hi = C["albedo_ice"], C["albedo_fresh_snow"]
    for i, c in columns(job):
        tn = float(r.choice([0.0, r.uniform(0, 3600 * 24 * 3), r.uniform(0, 3600 * 24 * 40)]))
        to = tn + float(r.choice([0.0, r.uniform(0, 3600 * 24 * 60)]))
        c["props"] = (float(r.choice([0.0, 0.02, r.uniform(0, 0.4)])), tn, to)
        if r.random() < 0.1:
            c["props"] = (-1e-4, tn, to)
        Ts = float(r.choice([C["zero_temperature"], r.uniform(240, 273), r.uniform(262, 264), 220.0]))
        a0 = float(r.uniform(C["albedo_firn"], hi))
        g = gen.make_grid(c)
        pre = as_ref(c)
        got, snow = (float(x) for x in updateAlbedo(g, Ts, a0))
        post = gen.snap(g)
        exp, esnow, props = ref.albedo(pre, Ts, a0, C)
        ctx = lambda: {"column": c, "Ts_previous": Ts, "snow albedo": a0, "got": [got, snow], "expected": [exp, esnow]}
        is_snow = ref.density(pre, C)[0] <= C["snow_ice_threshold"]
        job.expect(ref.close(got, exp, 1e-9), "drive:albedo", lambda: f"albedo {got!r}, expected {exp!r}", ctx)
        job.expect(ref.close(snow, esnow, 1e-9), "drive:snow-albedo", lambda: f"snow albedo {snow!r}, expected {esnow!r}", ctx)
        job.expect(lo - 1e-12 <= got <= hi + 1e-12, "drive:range", lambda: f"albedo {got!r} outside [{lo}, {hi}]", ctx)
        job.expect(is_snow or got == lo, "drive:ice", "bare ice without the ice albedo", ctx)
        job.expect(ref.close(post["props"], props, 1e-12), "drive:age", "snow age not handled as documented", ctx)
        d = ref.diff(ref.col(post["h"], post["T"], post["lwc"], post["ifr"]), pre, rtol=0, atol=0)
        job.expect(d is None, "drive:column", f"albedo changed the column: {d}", ctx)
        # thicker snow of the same age is at least as bright
        if is_snow and C["albedo_method"] == "Oerlemans98":
            c2 = {**c, "h": c["h"].copy()}
            c2["h"][0] += 0.05
            b = float(updateAlbedo(gen.make_grid(c2), Ts, a0)[0])
            job.expect(b >= got - 1e-12, "drive:depth", f"thicker snow darker: {got!r} -> {b!r}", ctx)
        job.count("drive.calls")
        job.count("drive.snow" if is_snow else "drive.ice")
        job.count("drive.age_corrected", props[1] != tn)
        job.evaluated(7, (round(got, 5), round(props[1]), round(Ts, 1)))
        job.sample({"props": c["props"], "snowheight": ref.snowheight(pre, C), "albedo": got})


def whole(job):
    C = job.C

    def extra(job, t, act, exp, now, end, st, ds, info):
        snow = ref.density(st["mesh"], C)[0] <= C["snow_ice_threshold"]
        job.count("trace.snow_steps" if snow else "trace.ice_steps")
        job.expect(C["albedo_ice"] - 1e-12 <= act["ALBEDO"] <= C["albedo_fresh_snow"] + 1e-12, "step:range",
                   f"albedo {act['ALBEDO']!r}", info)

    judge_trace(job, ["ALBEDO"], extra=extra,
                interesting=lambda act, exp, st, now: (round(act["ALBEDO"], 6), len(now["h"])))
