"""C10 closure of the surface energy balance."""
import numpy as np

from checks.common import as_ref, columns, specs, traces
from harness import gen, ref, trace

RULE = ("drive: random columns x random weather (including calm, cold, radiative extremes); trace: every "
        "step of whole-model runs.  The reference energy balance is evaluated around the reported surface "
        "temperature.  Distinct by rounded temperature, balance and configuration.")
REQUIRED = {"drive.calls": 300, "drive.melting": 40, "drive.freezing": 150, "traces": 6,
            "trace.melting": 50, "trace.freezing": 150}
ASSUMPTIONS = ["the minimisers L-BFGS-B and SLSQP (marked problematic in constants.toml) are not claimed",
               "temperature tolerance 0.3 K (solver tolerance is 1e-2 K on its step)"]
LOW = 220.0
V = ["default", "MO", "newton", "physics", "dt3h"]


def jobs(tier, seed):
    return (specs(["default", "MO", "newton", "physics"], "drive", tier, budget=(8, 80)) +
            specs(V, "whole", tier, budget=(8, 80)))


def tolerance(C):
    return 0.3


def verdict(F, TS, C):
    """None when TS solves the balance F, else what is wrong."""
    zt, d = C["zero_temperature"], tolerance(C)
    if not (LOW - 1e-6 <= TS <= zt):
        return "bounds", f"surface temperature {TS!r} outside [{LOW}, {zt}]"
    f0 = F(TS)
    grid = [F(TS + x) for x in (-d, -d / 3, -d / 10, -d / 100, d / 100, d / 10, d / 3, d)]
    crossing = min(grid + [f0]) <= 0 <= max(grid + [f0])
    if TS >= zt - 1e-9:
        # (the vapour flux jumps at the melting point, so a root a hair above it has no sign change below)
        if f0 >= -max(0.05, abs(F(TS + d / 10) - f0)) or crossing:
            return None
        return "melting", f"surface at the melting point although the balance there is {f0!r} W m-2"
    if crossing or abs(f0) <= 0.05:
        return None
    if TS <= LOW + 1e-6 and f0 <= 0:
        return None
    return "balance", f"balance {f0!r} W m-2 at TS={TS!r}, no root within {d} K"


def drive(job):
    from cosipy.modules.surfaceTemperature import update_surface_temperature

    C, r = job.C, job.rng
    zt = C["zero_temperature"]
    for i, c in columns(job):
        T2 = float(r.choice([r.uniform(244, 273), r.uniform(268, 280), r.uniform(278, 305)]))
        u2 = float(r.choice([0.0, 0.2, r.uniform(0.3, 12), r.uniform(5, 40)], p=[.07, .08, .7, .15]))
        RH, p = float(r.uniform(3, 100)), float(r.uniform(450, 1000))
        sw = float(r.choice([0.0, r.uniform(0, 200), r.uniform(100, 800)]))
        if i % 2:
            lw, N = np.float64(r.uniform(201, 400)), None
        else:
            lw, N = None, np.float64(r.uniform(0, 1))
        rain = float(r.choice([0.0, r.uniform(0, 10)]))
        slope = np.float64(r.uniform(0, 40))
        z0 = float(r.choice([C["roughness_fresh_snow"], C["roughness_ice"], r.uniform(0.2, 4)])) / 1000
        dt = C["dt"]
        c["T"][0] = max(c["T"][0], 235.0)
        g = gen.make_grid(c)
        pre = as_ref(c)
        out = update_surface_temperature(g, dt, C["z"], z0, T2, RH, p, sw, u2, rain, slope, lw, N)
        TS = float(np.asarray(out[1]).ravel()[0])
        post = gen.snap(g)
        job.count("drive.calls")
        ctx = lambda: {"column": c, "T2": T2, "u2": u2, "RH": RH, "p": p, "SW": sw, "LWin": lw, "N": N,
                       "rain": rain, "slope": slope, "z0": z0, "TS": TS}

        def F(T):
            f = ref.fluxes(pre, T, dt, C["z"], z0, T2, RH, p, u2, rain, slope, C, lw, N)
            return sw + sum(f[k] for k in ("LWin", "LWout", "H", "LE", "B", "QRR"))

        bad = verdict(F, TS, C)
        if bad:
            job.violation("drive:" + bad[0], bad[1], ctx())
        job.expect(abs(post["T"][0] - TS) <= 1e-9, "drive:skin", "top layer does not take the surface temperature", ctx)
        d = ref.diff(ref.col(post["h"], np.r_[pre["T"][0], post["T"][1:]], post["lwc"], post["ifr"]), pre)
        job.expect(d is None, "drive:column", f"the solver changed the column: {d}", ctx)
        fx = ref.fluxes(pre, TS, dt, C["z"], z0, T2, RH, p, u2, rain, slope, C, lw, N)
        got = dict(zip(("LWin", "LWout", "H", "LE", "B", "QRR"), (float(np.asarray(x).ravel()[0]) for x in out[2:8])))
        for k in got:
            job.expect(ref.close(got[k], fx[k], 1e-7, 1e-7), f"drive:{k}",
                       lambda: f"{k}={got[k]!r} at the reported temperature, expected {fx[k]!r}", ctx)
        job.count("drive.melting" if TS >= zt - 1e-9 else "drive.freezing")
        job.evaluated(9, (round(TS, 3), round(sw), round(T2, 1), round(u2, 1)))
        job.sample(ctx())


def whole(job):
    C = job.C
    zt = C["zero_temperature"]
    for info, ds, tr in traces(job):
        for t, act, exp, now, end, st in trace.walk(job, ds, tr):
            s, dt, z, z0, T2, RH, p, u2, rain, slope, lw, N, sw = st["flux_args"]

            def F(T):
                f = ref.fluxes(s, T, dt, z, z0, T2, RH, p, u2, rain, slope, C, lw, N)
                return sw + sum(f[k] for k in ("LWin", "LWout", "H", "LE", "B", "QRR"))

            TS = act["TS"]
            bad = verdict(F, TS, C)
            ctx = lambda: {"info": info, "t": t, "before": st["before"], "reported": act, "SWnet": sw}
            if bad:
                job.violation("trace:" + bad[0], bad[1], ctx())
            total = sw + sum(act[k] for k in ("LWin", "LWout", "H", "LE", "B", "QRR"))
            job.expect(abs(act["ME"] - max(0.0, total)) <= 1e-7 * max(1, abs(total)) + 1e-7, "trace:melt-energy",
                       lambda: f"ME={act['ME']!r}, surplus of the reported fluxes {total!r}", ctx)
            if TS < zt:
                d = tolerance(C)
                lim = max(0.5, abs(F(TS + d) - F(TS - d)))
                job.expect(act["ME"] <= lim or (TS <= LOW + 1e-6), "trace:cold-melt",
                           lambda: f"melt energy {act['ME']!r} at TS={TS!r} below melting", ctx)
            job.count("trace.melting" if TS >= zt - 1e-9 else "trace.freezing")
            job.evaluated(3, (job.params["variant"], round(TS, 3), round(total, 2)))
        job.sample({"case": info, "TS": tr["TS"][-3:], "ME": tr["ME"][-3:]})
