"""C11 surface energy fluxes."""
import numpy as np

from checks.common import VARIANTS, as_ref, columns, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns x surface temperature x weather for both stability corrections (stable, "
        "neutral, unstable, calm); trace: fluxes reported by whole-model steps. Distinct by rounded inputs.")
REQUIRED = {"drive.calls": 500, "drive.stable": 100, "drive.unstable": 100, "drive.calm": 20,
            "drive.parametrised_lw": 100, "drive.rain": 100, "drive.short_column": 20, "drive.thick_first_layer": 50, "traces": 6, "trace.steps_with_rain": 10}
KEYS = ("LWin", "LWout", "H", "LE", "B", "QRR")


def jobs(tier, seed):
    return (specs(["default", "MO", "physics", "tuned", "k-empirical", "dt3h"], "drive", tier, budget=(7, 60)) +
            specs(["default", "MO", "physics", "tuned", "k-empirical", "dt900", "adaptive"], "whole", tier, budget=(8, 80)))


def drive(job):
    from cosipy.modules.surfaceTemperature import eb_fluxes, interp_subT

    C, r = job.C, job.rng
    zt = C["zero_temperature"]
    f1 = lambda x: float(np.asarray(x).ravel()[0])
    for i, c in columns(job):
        T0 = float(r.choice([zt, r.uniform(240, zt), r.uniform(265, zt)]))
        T2 = float(np.clip(T0 + r.choice([r.normal(0, 0.3), r.normal(0, 4), r.normal(0, 15)]), 244, 312))
        u2 = float(r.choice([0.0, r.uniform(0.1, 2), r.uniform(1, 12), r.uniform(10, 45)], p=[.08, .3, .5, .12]))
        RH, p = float(r.choice([r.uniform(3, 100), 100.0])), float(r.uniform(450, 1000))
        lw, N = (np.float64(r.uniform(200, 400)), None) if i % 2 else (None, np.float64(r.choice([0.0, 1.0, r.uniform(0, 1)])))
        rain = float(r.choice([0.0, r.uniform(0, 15)]))
        slope = np.float64(r.choice([0.0, r.uniform(0, 45)]))
        z0 = float(r.choice([C["roughness_fresh_snow"], C["roughness_ice"], r.uniform(0.2, 4)])) / 1000
        z = float(r.choice([C["z"], r.uniform(1, 12)]))
        dt = C["dt"]
        if i % 11 == 5:                      # almost nothing left
            k = int(r.integers(1, 4))
            c = dict(c, h=np.minimum(c["h"][-k:], r.uniform(0.004, 0.04)), T=c["T"][-k:], lwc=c["lwc"][-k:],
                     ifr=c["ifr"][-k:])
        job.count("drive.short_column", sum(c["h"]) < C["zlt2"])
        job.count("drive.thick_first_layer", c["h"][0] > C["zlt1"])
        g = gen.make_grid(c)
        pre = as_ref(c)
        out = eb_fluxes(g, np.array([T0]), dt, z, z0, T2, RH, p, u2, rain, slope, interp_subT(g), lw, N)
        got = dict(zip(KEYS, (f1(x) for x in out[:6])))
        exp = ref.fluxes(pre, T0, dt, z, z0, T2, RH, p, u2, rain, slope, C, lw, N)
        ctx = lambda: {"column": c, "T0": T0, "T2": T2, "u2": u2, "RH": RH, "p": p, "LWin": lw, "N": N,
                       "rain": rain, "slope": slope, "z0": z0, "z": z, "got": got, "expected": exp}
        for k in KEYS:
            job.expect(ref.close(got[k], exp[k], 1e-8, 1e-9), f"drive:{k}",
                       lambda: f"{k}={got[k]!r}, expected {exp[k]!r}", ctx)
        # laws that hold whatever the parametrisation
        job.expect(all(np.isfinite(v) for v in got.values()), "drive:finite", lambda: f"non-finite flux {got}", ctx)
        job.expect(got["H"] * (T2 - T0) >= 0, "drive:H-direction", "sensible heat flows up the gradient", ctx)
        job.expect(u2 > 0 or (got["H"] == 0 and got["LE"] == 0), "drive:calm", "turbulent flux without wind", ctx)
        e2, e0 = RH / 100 * ref.esat(T2), ref.esat(T0)
        q2, q0 = RH / 100 * 0.622 * ref.esat(T2) / (p - ref.esat(T2)), 0.622 * e0 / (p - e0)
        job.expect(got["LE"] * (q2 - q0) >= -1e-12, "drive:LE-direction", "moisture flows up the gradient", ctx)
        job.expect(got["LWout"] < 0 and got["LWin"] > 0, "drive:LW-sign", "longwave sign", ctx)
        job.expect(rain > 0 or got["QRR"] == 0, "drive:no-rain-heat", "rain heat without rain", ctx)
        job.count("drive.calls")
        job.count("drive.stable" if T2 > T0 else "drive.unstable")
        job.count("drive.calm", u2 == 0)
        job.count("drive.rain", rain > 0)
        job.count("drive.parametrised_lw", lw is None)
        job.evaluated(12, (round(T0, 2), round(T2, 2), round(u2, 2), round(rain, 2)))
        job.sample({"got": got, "T0": T0, "T2": T2, "u2": u2})


def whole(job):
    def extra(job, t, act, exp, now, end, st, ds, info):
        job.count("trace.steps_with_rain", act["RAIN"] > 0)

    judge_trace(job, KEYS, extra=extra, rtol=1e-7, atol=1e-7)
