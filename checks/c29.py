"""C29 WRF output becomes model input faithfully."""
import pathlib
import sys
import types

import numpy as np

from checks import c24
from checks.c28 import argform, compare, digest, dump, load
from harness import e2e, tomlw
from harness.worker import REPO

RULE = ("generated WRF files (any size, times with seconds, accumulating rain and snow, land use, relief of any orientation) converted by the "
        "real wrf2cosipy main() in forked processes for random settings and periods; every variable compared with independently computed "
        "fields; converted files then run through the model. Distinct by settings, period, size and relief.")
REQUIRED = {"files": 20, "cells": 20000, "period": 6, "saturated": 5, "constant_density": 6, "variable_density": 6, "wind_height": 6, "glacier": 15,
            "slopes": 15, "aspects": 200, "model_runs": 2, "warned": 3, "repeat": 3, "other_class": 5}


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i, m in enumerate(["constant", "Boone"]):
        out.append(dict(name=f"convert-{i}", func="convert_many", constants={"PARAMETERIZATIONS": {"densification_method": m}},
                        params={"densification": m}, budget_s=25 if q else 150, timeout_s=800))
    return out + [dict(name="model-0", func="model", budget_s=25 if q else 100, timeout_s=800)]


def wrf_file(rng, path, n, shape, glacier, mild=False):
    import pandas as pd
    import xarray as xr

    ny, nx = shape
    t0 = pd.Timestamp("20%02d-%02d-%02dT%02d:00" % (rng.integers(0, 30), rng.integers(1, 13), rng.integers(1, 28), rng.integers(0, 24)))
    t = pd.date_range(t0, periods=n, freq=str(rng.choice(["1h", "1h", "3h"])) if not mild else "1h")
    if rng.random() < 0.3 and not mild:
        t = t + pd.to_timedelta(rng.integers(0, 59, n), "s")
    R = lambda a, b: rng.uniform(a, b, (n, ny, nx))
    S = lambda x: np.repeat(x[None], n, 0)
    y, x = np.mgrid[0:ny, 0:nx]
    k = int(rng.integers(3))
    res = float(rng.choice([500, 1000, 3000]))
    z = 3000 + (rng.uniform(-1, 1) * y + rng.uniform(-1, 1) * x) * res * 0.3
    if k:
        z = z + rng.uniform(0, res * 0.3, (ny, nx))
    acc = lambda m: np.cumsum(np.where(rng.random((n, ny, nx)) < 0.5, 0, rng.exponential(m, (n, ny, nx))), 0) + rng.uniform(0, 300)
    lu = rng.choice([glacier, glacier, 0, 2, 16], (ny, nx))
    if mild:
        lu = np.where(rng.random((ny, nx)) < 0.5, glacier, 2)
        lu[ny // 2, nx // 2] = glacier
    f = lambda v: (("Time", "south_north", "west_east"), np.asarray(v, "f4"))
    wet = rng.random() < 0.4
    d = dict(HGT=S(z), T2=R(250, 276 if mild else 300), Q2=R(1e-4, 0.02 if wet else 0.003), PSFC=R(5e4, 8e4), SWDOWN=np.maximum(R(-400, 1000), 0),
             GLW=R(150, 350), SNOWH=S(rng.uniform(0, 2, (ny, nx))), SNOW=S(rng.uniform(0, 500, (ny, nx))), SNOWC=S(rng.choice([0., 1.], (ny, nx))),
             LU_INDEX=S(lu), TSK=S(rng.uniform(250, 273, (ny, nx))), V10=R(-12, 12), U10=R(-12, 12), RAINNC=acc(1.0), RAINC=acc(0.3), SNOWNC=acc(0.8))
    if rng.random() < 0.2 and not mild:
        d["T2"][0, 0, 0] = 330
    # the fields that are constant in time must come from the selected period
    if rng.random() < 0.5 and not mild:
        for q in ("SNOWH", "SNOW", "TSK"):
            d[q] = d[q] + np.arange(n)[:, None, None] * 0.01
    ds = xr.Dataset({q: f(v) for q, v in d.items()}, coords=dict(XTIME=("Time", t), XLAT=f(S(45 + y * 0.01)), XLONG=f(S(10 + x * 0.01))),
                    attrs=dict(DX=np.float32(res), DY=np.float32(res * rng.choice([1, 1, 0.5, 2]))))
    ds.to_netcdf(path)
    return load(path), t


def convert(argv):
    def go():
        import contextlib
        import io as _io
        import warnings

        warnings.simplefilter("ignore")
        from cosipy.utilities.wrf2cosipy import wrf2cosipy

        sys.argv = ["wrf2cosipy"] + [str(a) for a in argv]
        b = _io.StringIO()
        with contextlib.redirect_stdout(b):
            wrf2cosipy.main()
        return b.getvalue()

    def safe():
        try:
            return "ok", go()
        except BaseException as e:  # noqa: BLE001
            return type(e).__name__, repr(e)
    return c24.forked(safe)


def horn(z, dx, dy):
    """Slope [deg] and downslope azimuth (clockwise from north) with row 0 in the south."""
    s = np.full(z.shape, np.nan)
    a = np.full(z.shape, np.nan)
    for i in range(1, z.shape[0] - 1):
        for j in range(1, z.shape[1] - 1):
            w = z[i - 1:i + 2, j - 1:j + 2].astype(float)
            gx = ((w[:, 2] - w[:, 0]) * [1, 2, 1]).sum() / (8 * dx)
            gy = ((w[2] - w[0]) * [1, 2, 1]).sum() / (8 * dy)
            s[i, j] = np.degrees(np.arctan(np.hypot(gx, gy)))
            a[i, j] = np.degrees(np.arctan2(-gx, -gy)) % 360
    return s, a


def expected(src, C, hu, lu_class):
    T, Q, P = (src[k].values.astype(float) for k in ("T2", "Q2", "PSFC"))
    rh = np.clip(Q * 100 / (379.90516 / P * np.exp(17.2693882 * (T - 273.16) / (T - 35.86))), 0, 100)
    u2 = np.hypot(src.U10.values.astype(float), src.V10.values.astype(float)) * np.log(2 / 0.004) / np.log(hu / 0.004)
    d = lambda x: np.concatenate([np.zeros_like(x[:1]), np.diff(x, axis=0)])
    rrr = d(src.RAINNC.values.astype(float) + src.RAINC.values.astype(float))
    rho = C.constant_density if C.densification_method == "constant" else np.maximum(109 + 6 * (T - 273.16) + 26 * np.sqrt(u2), 50)
    snow = d(src.SNOWNC.values.astype(float)) / 1000 * C.water_density / rho
    first = lambda k: src[k].values[0]
    return {"T2": T, "RH2": rh, "U2": u2, "G": src.SWDOWN.values, "LWin": src.GLW.values, "PRES": P / 100, "RRR": rrr, "SNOWFALL": snow}, \
        {"HGT": first("HGT"), "SNOWHEIGHT": first("SNOWH"), "SWE": first("SNOW"), "SNOWC": first("SNOWC"), "LU_INDEX": first("LU_INDEX"), "TSK": first("TSK"),
         "MASK": (first("LU_INDEX") == lu_class).astype(float), "lat": first("XLAT"), "lon": first("XLONG")}, rh


UNITS = {"T2": "K", "RH2": "%", "PRES": "hPa", "RRR": "mm", "SNOWFALL": "m", "HGT": "m"}
ATOL = {"RRR": 2e-3, "SNOWFALL": 5e-5, "RH2": 2e-3, "U2": 1e-4, "T2": 1e-4, "PRES": 1e-3}


def convert_many(job):
    import pandas as pd

    rng = job.rng
    n = 0
    while job.time_left() > 0 or n < 15:
        n += 1
        d = pathlib.Path(job.scratch) / f"w{n}"
        d.mkdir()
        u = tomlw.load(REPO / "utilities_config.toml")
        hu = float(rng.choice([10, 10, 2, 5, 30]))
        cls = int(rng.choice([24, 24, 15, 1]))
        u["wrf2cosipy"]["constants"].update(hu=hu, lu_class=cls)
        dump(u, d / "u.toml")
        src, t = wrf_file(rng, d / "wrf out.nc", int(rng.integers(2, 30)), (int(rng.integers(3, 8)), int(rng.integers(3, 8))), cls)
        pairs = [("-i", "--input", d / "wrf out.nc"), ("-o", "--output", d / "out.nc"), ("-u", "--utilities", d / "u.toml")]
        lab = pd.DatetimeIndex(t).floor("min")
        per = rng.random() < 0.4
        if per:
            i, j = sorted(int(x) for x in rng.integers(0, len(lab), 2))
            if rng.random() < 0.5:
                b, e = lab[i].strftime("%Y-%m-%d"), lab[j].strftime("%Y-%m-%d")
                sel = np.asarray((lab >= pd.Timestamp(b)) & (lab < pd.Timestamp(e) + pd.Timedelta("1D")))
            else:
                b, e = lab[i].strftime("%Y-%m-%dT%H:%M"), lab[j].strftime("%Y-%m-%dT%H:%M")
                sel = np.asarray((lab >= lab[i]) & (lab <= lab[j]))
            pairs += [("-b", "--start_date", b), ("-e", "--end_date", e)]
            src, lab = src.isel(Time=np.flatnonzero(sel)), lab[sel]
        before = digest(d / "wrf out.nc", d / "u.toml")
        kind, text = convert(argform(rng, pairs))
        ctx = lambda: {"settings": u["wrf2cosipy"], "period": [str(x) for p in pairs[3:] for x in p], "times": [str(x) for x in lab[:3]], "shape": list(src.HGT.shape), "said": text[-300:]}
        job.expect(digest(d / "wrf out.nc", d / "u.toml") == before, "inputs-changed", "the conversion changed its input files", ctx)
        if not job.expect(kind == "ok" and (d / "out.nc").exists(), "failed", lambda: f"conversion failed: {kind} {text[-400:]}", ctx):
            continue
        g = load(d / "out.nc")
        job.count("files")
        if not job.expect(g.time.dtype.kind == "M" and np.array_equal(g.time.values, lab.values), "times", lambda: f"{len(g.time)} times from {g.time.values[:1]}, expected {len(lab)} from {lab[:1]}", ctx):
            continue
        want, st, rh = expected(src, types.SimpleNamespace(**job.C), hu, cls)
        for k, x in want.items():
            if job.expect(k in g and g[k].dims == ("time", "south_north", "west_east"), "variables", lambda: f"{k} missing or misplaced", ctx):
                compare(job, k, g[k].values, x, ctx, rtol=2e-5, atol=ATOL.get(k, 1e-3))
                job.expect(k not in UNITS or g[k].attrs.get("units") == UNITS[k], "units", lambda: f"{k} has unit {g[k].attrs.get('units')}", ctx)
        for k, x in st.items():
            if job.expect(k in g.variables and g[k].dims == ("south_north", "west_east"), "variables", lambda: f"{k} missing or misplaced", ctx):
                compare(job, k, g[k].values, x, ctx, rtol=1e-6, atol=1e-6)
        s, a = horn(src.HGT.values[0], src.attrs["DX"], src.attrs["DY"])
        compare(job, "SLOPE", g.SLOPE.values, s, ctx, rtol=1e-3, atol=0.02)
        tilt = np.nan_to_num(s) > 0.5
        off = np.abs((g.ASPECT.values[tilt] - a[tilt] + 180) % 360 - 180)
        job.expect((off < 1.0).all(), "ASPECT", lambda: f"aspect off by {off.max():.1f} degrees", ctx)
        told = text.count("WARNING")
        lim = {"T2": (223.16, 316.16), "RH2": (0, 100), "SNOWFALL": (0, 1), "U2": (0, 50), "G": (0, 1600), "PRES": (200, 1080), "LWin": (100, 500)}
        bad = [k for k, (lo, hi) in lim.items() if g[k].max() > hi or g[k].min() < lo]
        job.expect(told == len(bad), "plausibility", lambda: f"{told} warnings, implausible are {bad}", ctx)
        for k, c in (("period", per), ("saturated", (rh == 100).any()), ("wind_height", hu != 10), ("glacier", st["MASK"].any()), ("slopes", tilt.any()), ("aspects", tilt.sum()),
                     ("warned", bool(bad)), ("other_class", cls != 24), ("constant_density" if job.params["densification"] == "constant" else "variable_density", 1)):
            job.count(k, c)
        if rng.random() < 0.3:
            pairs[1] = ("-o", "--output", d / "again.nc")
            k2, _ = convert(argform(rng, pairs))
            job.expect(k2 == "ok" and load(d / "again.nc").identical(g), "repeat", "converting again gives another file", ctx)
            job.count("repeat")
        job.evaluated(len(want) + len(st) + 4, (job.params["densification"], hu, cls, per, src.HGT.shape, n))
    job.sample(ctx())


def model(job):
    rng = job.rng
    n = 0
    while job.time_left() > 5 or n < 2:
        n += 1
        d = pathlib.Path(job.scratch) / f"m{n}"
        d.mkdir()
        src, t = wrf_file(rng, d / "wrf.nc", int(rng.integers(4, 8)), (5, 5), 24, mild=True)
        kind, text = convert(["-i", d / "wrf.nc", "-o", d / "in.nc", "-u", REPO / "utilities_config.toml"])
        if not job.expect(kind == "ok", "failed", lambda: f"conversion failed: {kind} {text[-300:]}", {}):
            continue
        g = load(d / "in.nc")
        g["MASK"] = g.MASK.where(np.isfinite(g.SLOPE), 0.0)           # the rim has no slope
        b, e = t[0].strftime("%Y-%m-%dT%H:%M"), t[-1].strftime("%Y-%m-%dT%H:%M")
        o = e2e.ok(job, e2e.run_main(job, {"SIMULATION_PERIOD": {"time_start": b, "time_end": e}, "DIMENSIONS": {"WRF": True},
                                           "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"}}, input_ds=g))
        r = o.result
        m = g.MASK.values == 1
        ctx = lambda: {"period": [b, e], "mask": m}
        job.expect(r is not None and np.array_equal(r.time.values, t.values), "model-times", "the model did not simulate the converted period", ctx)
        if r is not None:
            for k in ("T2", "RH2", "U2", "G", "PRES"):
                x = np.where(m, g[k].values, r[k].values)
                compare(job, f"model {k}", r[k].values, x, ctx, "model-input", rtol=1e-5, atol=1e-4)
            job.expect(np.array_equal(np.isfinite(r.surfMB.values).all(0), m), "model-cells", "not exactly the converted glacier was simulated", ctx)
        job.count("model_runs")
        job.evaluated(7, (n, b, m.sum()))
        for p in list(e2e.datadir(job).rglob("*.nc")):
            p.unlink()
    job.sample(ctx())
