"""C28 station data become model input faithfully."""
import hashlib
import os
import pathlib
import re
import sys

import numpy as np

from checks import c24, sunref as R
from harness import tomlw
from harness.worker import REPO

RULE = ("generated station records (any variables, units, gaps, text noise, delimiters, sub-hourly to daily steps), static files "
        "(any size, slopes, masks with missing cells) and settings converted by the real aws2cosipy main() in forked processes; "
        "every variable, coordinate and static field of the written file compared with values computed independently. Distinct "
        "by mode, settings and record shape.")
REQUIRED = {"grid": 12, "point": 12, "point_wrf": 3, "wrf": 3, "aggregated": 3, "period": 8, "subset": 3, "gaps_filled": 3, "gaps_refused": 2, "celsius": 8,
            "wohlfahrt": 4, "no_radiation": 4, "moelg": 2, "moelg_lut": 2, "clipped_rh": 4, "clipped_rrr": 3, "refused_temperature": 2,
            "refused_longwave": 2, "refused_module": 1, "cells": 5000, "point_static": 3, "point_bare": 3, "repeat": 4, "implausible": 5}


def jobs(tier, seed):
    q = tier == "quick"
    k = dict(mode="jit", budget_s=35 if q else 200, timeout_s=800)
    return [dict(name=f"{f}-{i}", func=f, **k) for f in ("grid", "point") for i in range(2 if q else 4)] + [dict(name="moelg-0", func="moelg", **k)]


def settings(rng, d):
    u = tomlw.load(REPO / "utilities_config.toml")
    a = u["aws2cosipy"]
    if rng.random() < 0.5:                                  # rename the columns
        for k in a["names"]:
            if k != "in_K":
                a["names"][k] = f"{k}_{int(rng.integers(99))}" if rng.random() < 0.5 else a["names"][k]
    a["names"]["in_K"] = bool(rng.random() < 0.5)
    a["coords"].update(WRF=False, aggregate=False, aggregation_step="3h", delimiter=str(rng.choice([",", ";", "\t"])))
    a["radiation"].update(radiationModule="none", LUT=False, LUT_path=str(d / "lut.nc"), zeni_thld=float(rng.choice([85.0, 89.0])))
    z0 = float(rng.uniform(0, 5500))
    a["station"].update(stationAlt=z0)
    flat = rng.random() < 0.25
    a["lapse"].update(lapse_T=0.0 if flat else float(rng.uniform(-0.01, 0.01)), lapse_RH=0.0 if flat else float(rng.uniform(-0.05, 0.05)),
                      lapse_RRR=0.0 if flat else float(rng.uniform(-0.002, 0.002)), lapse_SNOWFALL=0.0 if flat else float(rng.uniform(-1e-5, 1e-5)))
    a["points"].update(point_model=False, hgt=z0 if rng.random() < 0.3 else float(max(0, z0 + rng.uniform(-800, 800))))
    return u


def dump(u, path):
    out = []
    for tool, tabs in u.items():
        for tab, vals in tabs.items():
            out.append(f"[{tool}.{tab}]")
            out += [f"{k} = {tomlw._v(v)}" for k, v in vals.items()]
    pathlib.Path(path).write_text("\n".join(out) + "\n")


def record(rng, u, n, step, gaps=False):
    """A station record: model-unit values by model name, and the frame as written."""
    import pandas as pd

    a = u["aws2cosipy"]
    nm = a["names"]
    t = pd.date_range("20%02d-%02d-%02d" % (rng.integers(0, 30), rng.integers(1, 13), rng.integers(1, 28)), periods=n, freq=step)
    z = a["station"]["stationAlt"]
    v = {"T2": rng.uniform(240, 300, n), "RH2": rng.uniform(1, 100, n), "U2": rng.uniform(0, 20 if rng.random() < 0.8 else 60, n),
         "G": np.maximum(rng.uniform(-300, 1000, n), 0), "PRES": 1013 * (1 - 0.0065 * z / 288.15) ** 5.255 + rng.uniform(-15, 15, n),
         "RRR": np.where(rng.random(n) < 0.5, 0, rng.exponential(1 if rng.random() < 0.8 else 9, n))}
    extra = int(rng.integers(1, 4))
    if extra & 1:
        v["LWin"] = rng.uniform(120, 390, n)
    if extra & 2:
        v["N"] = rng.uniform(0, 1, n)
    if rng.random() < 0.4:
        v["SNOWFALL"] = np.where(rng.random(n) < 0.5, 0, rng.uniform(0, 0.02, n))
    v = {k: np.round(x, 6) for k, x in v.items()}
    if gaps:
        for k in v:
            miss = rng.random(n) < 0.15
            miss[0] = False
            v[k][miss] = np.nan
    f = pd.DataFrame({nm[f"{k}_var"]: (x if k != "T2" or nm["in_K"] else x - 273.16) for k, x in v.items()}, index=pd.Index(t, name="TIMESTAMP"))
    f = f[[f.columns[int(i)] for i in rng.permutation(f.shape[1])]]
    f["other_column"] = "text"
    return t, v, f


def write_csv(f, u, path):
    f.to_csv(path, sep=u["aws2cosipy"]["coords"]["delimiter"], na_rep="NAN", float_format="%.10g")


def static(rng, d, near=None):
    import xarray as xr

    ny, nx = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    lat0 = float(rng.uniform(-70, 70)) if near is None else near[0] - 0.01
    lon0 = float(rng.uniform(-170, 170)) if near is None else near[1] - 0.01
    lats, lons = lat0 + 0.01 * np.arange(ny), lon0 + 0.013 * np.arange(nx)
    mask = np.where(rng.random((ny, nx)) < 0.7, 1.0, rng.choice([np.nan, 0.0], (ny, nx)))
    mask[rng.integers(ny), rng.integers(nx)] = 1.0
    f = lambda x: (("lat", "lon"), x.astype(rng.choice([np.float32, np.float64])))
    slope, aspect = rng.uniform(0, 50, (ny, nx)), rng.uniform(0, 360, (ny, nx))
    slope[rng.random((ny, nx)) < 0.2] = 0
    ds = xr.Dataset({"HGT": f(np.maximum(rng.uniform(0, 6000) + rng.uniform(-900, 900, (ny, nx)), 0)), "ASPECT": f(aspect), "SLOPE": f(slope), "MASK": f(mask)},
                    coords={"lat": lats, "lon": lons})
    p = pathlib.Path(d) / "static.nc"
    ds.to_netcdf(p)
    with xr.open_dataset(p) as s:
        return p, s.load()


def convert(argv):
    def go():
        import io as _io
        import contextlib
        import warnings

        warnings.simplefilter("ignore")
        sys.argv = ["aws2cosipy"] + [str(a) for a in argv]
        from cosipy.utilities.aws2cosipy import aws2cosipy

        b = _io.StringIO()
        with contextlib.redirect_stdout(b):
            aws2cosipy.main()
        return b.getvalue()

    def safe():
        try:
            return "ok", go()
        except BaseException as e:  # noqa: BLE001
            return type(e).__name__, repr(e)
    return c24.forked(safe)


def load(path):
    import xarray as xr

    with xr.open_dataset(path) as s:
        return s.load()


def digest(*paths):
    return [hashlib.blake2b(pathlib.Path(p).read_bytes()).hexdigest() for p in paths]


def argform(rng, pairs):
    out = []
    for short, long, val in pairs:
        out.append([short, val] if short and rng.random() < 0.5 else [f"{long}={val}"] if rng.random() < 0.5 else [long, val])
    return [str(x) for i in rng.permutation(len(out)) for x in out[int(i)]]


def period(rng, t):
    """Dates as a user would give them, and the steps they select."""
    import pandas as pd

    i, j = sorted(int(x) for x in rng.integers(0, len(t), 2))
    a, b = (t[i], t[j])
    if rng.random() < 0.5:
        a, b = a.strftime("%Y-%m-%d"), b.strftime("%Y-%m-%d")
        lo, hi = pd.Timestamp(a), pd.Timestamp(b) + pd.Timedelta("1D")
    else:
        a, b = a.strftime("%Y-%m-%dT%H:%M"), b.strftime("%Y-%m-%dT%H:%M")
        lo, hi = pd.Timestamp(a), pd.Timestamp(b) + pd.Timedelta("1min")
    return a, b, lo, hi


def grouped(t, v, step, nansum):
    """Means (sums for precipitation) of the values falling into each step."""
    import pandas as pd

    # epoch-aligned floor is the alignment of whole-day divisors
    g = t.floor(step)
    lab = pd.date_range(g[0], g[-1], freq=step)
    out = {}
    for k, x in v.items():
        r = []
        for u in lab:
            y = x[np.asarray(g == u)]
            y = y[~np.isnan(y)]
            if k in ("RRR", "SNOWFALL"):
                r.append(np.nan if (nansum and len(y) == 0) else y.sum())
            else:
                r.append(y.mean() if len(y) else np.nan)
        out[k] = np.array(r)
    return lab, out


def compare(job, name, got, want, ctx, key=None, rtol=1e-9, atol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not job.expect(got.shape == want.shape, f"{key or name}-shape", lambda: f"{name} has shape {got.shape}, expected {want.shape}", ctx):
        return
    bad = ~(np.isclose(got, want, rtol=rtol, atol=atol) | (np.isnan(got) & np.isnan(want)))
    job.expect(not bad.any(), key or name, lambda: f"{name}: {got[bad][0]!r} instead of {want[bad][0]!r} ({bad.sum()} of {bad.size} values)", ctx)
    job.count("cells", bad.size)


def barometric(p, z0, z):
    return p / (1 - 0.0065 * z0 / 288.15) ** 5.255 * (1 - 0.0065 * z / 288.15) ** 5.255


ONE = {"T2": "K", "RH2": "%", "U2": None, "G": None, "PRES": "hPa", "RRR": "mm", "SNOWFALL": "m", "LWin": None, "N": None}


def point(job):
    rng = job.rng
    n = 0
    while job.time_left() > 0 or n < 12:
        n += 1
        d = pathlib.Path(job.scratch) / f"p{n}"
        d.mkdir()
        u = settings(rng, d)
        a = u["aws2cosipy"]
        a["points"]["point_model"] = True
        plat, plon = float(np.round(rng.uniform(-70, 70), 4)), float(np.round(rng.uniform(-170, 170), 4))
        a["points"].update(plat=plat, plon=plon)
        st = None
        wrf = rng.random() < 0.25
        a["coords"]["WRF"] = wrf
        stat = not wrf and rng.random() < 0.5
        if stat:
            p, st = static(rng, d, (plat, plon))
        step = str(rng.choice(["1h", "1h", "30min", "10min"]))
        gaps = rng.random() < 0.4
        t, v, f = record(rng, u, int(rng.integers(30, 120)), step, gaps)
        hot = rng.random() < 0.12
        if hot:
            k = a["names"]["T2_var"]
            f.loc[f.index[5]:f.index[20], k] = f[k].abs().max() + 200
        csv, out, cfg = d / "my station.csv", d / "out.nc", d / "u.toml"
        write_csv(f, u, csv)
        dump(u, cfg)
        pairs = [("-i", "--input", csv), ("-o", "--output", out), ("-u", "--utilities", cfg)]
        if stat:
            pairs.append(("-s", "--static_file", p))
        # gaps are bridged with the value before them, then everything is brought to hours
        for k in v:
            for i in range(1, len(t)):
                if np.isnan(v[k][i]):
                    v[k][i] = v[k][i - 1]
        lab, w = grouped(t, v, "1h", True)
        per = rng.random() < 0.4
        if per:
            b, e, lo, hi = period(rng, lab)
            pairs += [("-b", "--start_date", b), ("-e", "--end_date", e)]
            sel = np.asarray((lab >= lo) & (lab < hi))
            lab, w = lab[sel], {k: x[sel] for k, x in w.items()}
        files = [csv, cfg] + ([p] if stat else [])
        before = digest(*files)
        kind, text = convert(argform(rng, pairs))
        ctx = lambda: {"settings": a, "static": bool(stat), "step": step, "gaps": gaps, "period": pairs[-2:] if per else None, "record": f.head(5).to_dict("list"), "said": text[-300:]}
        job.count("point")
        job.expect(digest(*files) == before, "inputs-changed", "the conversion changed its input files", ctx)
        if stat:
            iy, ix = int(np.argmin(abs(st.lat.values - plat))), int(np.argmin(abs(st.lon.values - plon)))
            if np.isnan(st.MASK.values[iy, ix]):
                job.expect(kind == "ValueError" and not out.exists(), "missing-mask", "a point without static data was converted", ctx)
                continue
        if hot:
            if per and not sel[5 * 0:].any():
                continue
            continue_ok = kind == "ValueError" and not out.exists()
            if continue_ok:
                job.count("refused_temperature")
                continue
            if not per:
                job.violation("impossible-temperature", "temperatures above 373 K were converted", ctx())
            continue
        if not job.expect(kind == "ok" and out.exists(), "failed", lambda: f"conversion failed: {kind} {text[-400:]}", ctx):
            continue
        g = load(out)
        z0, z = a["station"]["stationAlt"], a["points"]["hgt"]
        lp = a["lapse"]
        want = {"T2": w["T2"] + (z - z0) * lp["lapse_T"], "RH2": w["RH2"] + (z - z0) * lp["lapse_RH"], "U2": w["U2"], "G": w["G"],
                "PRES": barometric(w["PRES"], z0, z), "RRR": np.maximum(w["RRR"] + (z - z0) * lp["lapse_RRR"], 0)}
        job.count("clipped_rh", int(((want["RH2"] > 100) | (want["RH2"] < 0)).any()))
        job.count("clipped_rrr", int((w["RRR"] + (z - z0) * lp["lapse_RRR"] < 0).any()))
        want["RH2"] = np.where(want["RH2"] > 100, 100, np.where(want["RH2"] < 0, 0.1, want["RH2"]))
        if "SNOWFALL" in w:
            want["SNOWFALL"] = np.maximum(w["SNOWFALL"] + (z - z0) * lp["lapse_SNOWFALL"], 0)
        for k in ("LWin", "N"):
            if k in w:
                want[k] = w[k]
        job.expect({str(k) for k in g.data_vars} == set(want) | {"HGT", "ASPECT", "SLOPE", "MASK"}, "variables", lambda: f"the file holds {sorted(map(str, g.data_vars))}", ctx)
        ok = np.array_equal(g.time.values, lab.values)
        if job.expect(ok, "times", lambda: f"{len(g.time)} times from {g.time.values[:1]} to {g.time.values[-1:]}, expected {len(lab)} from {lab[0]} to {lab[-1]}", ctx):
            for k, x in want.items():
                if k in g:
                    compare(job, k, g[k].values, x[:, None, None], ctx)
                    job.expect(ONE[k] is None or g[k].attrs.get("units") == ONE[k], "units", lambda: f"{k} has unit {g[k].attrs.get('units')}", ctx)
        warnings_given(job, g, text, ctx)
        sd = ("south_north", "west_east") if wrf else ("lat", "lon")
        job.expect(all(g[k].dims == ("time",) + sd for k in want if k in g) and all(g[k].dims == sd for k in ("HGT", "MASK")), "dims",
                   lambda: f"dimensions {[(k, g[k].dims) for k in ('T2', 'HGT')]}", ctx)
        job.count("point_wrf", wrf)
        job.expect(float(g.lat.values.flat[0]) == plat and abs(float(g.lon.values.flat[0]) - (plon if not stat else st.lon.values[ix])) < 1e-12, "place",
                   lambda: f"the point lies at {g.lat.values}, {g.lon.values}", ctx)
        sf = {"HGT": z, "ASPECT": 0, "SLOPE": 0, "MASK": 1}
        if stat:
            sf.update(ASPECT=st.ASPECT.values[iy, ix] - 180.0, SLOPE=st.SLOPE.values[iy, ix], MASK=st.MASK.values[iy, ix])
        for k, x in sf.items():
            compare(job, k, g[k].values, np.full((1, 1), float(x)), ctx, rtol=1e-6)
        job.count("gaps_filled", gaps)
        job.count("celsius", not a["names"]["in_K"])
        job.count("period", per)
        job.count("point_static" if stat else "point_bare")
        if rng.random() < 0.3:
            out2 = d / "again.nc"
            pairs[1] = ("-o", "--output", out2)
            k2, _ = convert(argform(rng, pairs))
            job.expect(k2 == "ok" and load(out2).identical(g), "repeat", "converting again gives another file", ctx)
            job.count("repeat")
        job.evaluated(len(want) + 6, ("point", stat, wrf, step, gaps, per, tuple(sorted(want)), a["names"]["in_K"], z == z0, n))
    job.sample(ctx())
def fields(job, rng, u, st, lab, w):
    """The expected gridded variables (without G)."""
    a = u["aws2cosipy"]
    h = st.HGT.values.astype(float)
    dz = h - a["station"]["stationAlt"]
    lp = a["lapse"]
    B = lambda x: x[:, None, None] + 0 * h
    rh = B(w["RH2"]) + dz * lp["lapse_RH"]
    job.count("clipped_rh", int(((rh > 100) | (rh < 0)).any()))
    out = {"T2": B(w["T2"]) + dz * lp["lapse_T"], "RH2": np.where(rh > 100, 100, np.where(rh < 0, 0.1, rh)), "U2": B(w["U2"]),
           "PRES": barometric(B(w["PRES"]), a["station"]["stationAlt"], h)}
    for k in ("RRR", "SNOWFALL"):
        if k in w:
            raw = B(w[k]) + dz * lp[f"lapse_{k}"]
            job.count("clipped_rrr", int((raw < 0).any()))
            out[k] = np.maximum(raw, 0)
    for k in ("LWin", "N"):
        if k in w:
            out[k] = B(w[k])
    return out


BOUNDS = {"T2": (223.16, 316.16), "RH2": (0, 100), "U2": (0, 50), "G": (0, 1600), "PRES": (200, 1080), "RRR": (0, 20), "SNOWFALL": (0, 0.05), "LWin": (0, 400), "N": (0, 1)}


def warnings_given(job, g, said, ctx):
    """A value outside its plausible range is reported, and only then."""
    told = {x.lower() for x in re.findall(r"reasonable range (\w+) MAX", said)}
    for k, (lo, hi) in BOUNDS.items():
        if k in g:
            out = bool(np.nanmax(g[k].values) > hi or np.nanmin(g[k].values) < lo)
            job.expect(out == (k.lower() in told), "plausibility", lambda: f"{k} is {'outside' if out else 'inside'} its plausible range but {'no' if out else 'a'} warning was given", ctx)
            job.count("implausible", out)


def check_grid(job, g, st, want, lab, wrf, ctx, rad):
    dims = ("south_north", "west_east") if wrf else ("lat", "lon")
    job.expect({str(k) for k in g.data_vars} == set(want) | {"G", "HGT", "ASPECT", "SLOPE", "MASK"}, "variables", lambda: f"the file holds {sorted(map(str, g.data_vars))}", ctx)
    la, lo = (np.meshgrid(st.lat.values, st.lon.values, indexing="ij")) if wrf else (st.lat.values, st.lon.values)
    compare(job, "latitudes", g.lat.values, la, ctx, "grid")
    compare(job, "longitudes", g.lon.values, lo, ctx, "grid")
    if not job.expect(np.array_equal(g.time.values, lab.values), "times", lambda: f"{len(g.time)} times from {g.time.values[:1]}, expected {len(lab)} from {lab[:1]}", ctx):
        return
    for k in list(want) + ["G"]:
        if k in g:
            job.expect(g[k].dims == ("time",) + dims, "dims", lambda: f"{k} has dimensions {g[k].dims}", ctx)
            job.expect(ONE[k] is None or g[k].attrs.get("units") == ONE[k], "units", lambda: f"{k} has unit {g[k].attrs.get('units')}", ctx)
            compare(job, k, g[k].values, want[k] if k != "G" else rad, ctx, rtol=3e-6, atol={"PRES": 2e-3, "RH2": 1e-4, "SNOWFALL": 1e-8, "RRR": 1e-5, "G": 2e-2}.get(k, 1e-5))
    for k, x in {"HGT": st.HGT.values, "SLOPE": st.SLOPE.values, "MASK": st.MASK.values, "ASPECT": st.ASPECT.values - 180.0}.items():
        compare(job, k, g[k].values, x, ctx, rtol=1e-5, atol=1e-4)


def grid(job):
    rng = job.rng
    n = 0
    import cosipy.modules.radCor as M

    while job.time_left() > 0 or n < 14:
        n += 1
        d = pathlib.Path(job.scratch) / f"g{n}"
        d.mkdir()
        u = settings(rng, d)
        a = u["aws2cosipy"]
        p, st = static(rng, d)
        wrf = rng.random() < 0.3
        agg = rng.random() < 0.3
        step = str(rng.choice(["1h", "1h", "30min"])) if agg else str(rng.choice(["1h", "1h", "3h"]))
        mod = str(rng.choice(["Wohlfahrt2016", "Wohlfahrt2016", "none", "Magic1999"], p=[0.4, 0.15, 0.35, 0.1]))
        a["coords"].update(WRF=wrf, aggregate=agg, aggregation_step=str(rng.choice(["3h", "2h", "1h", "1D"])))
        a["radiation"].update(radiationModule=mod, timezone_lon=float(15 * round(float(st.lon.mean()) / 15)))
        gaps = rng.random() < 0.15
        t, v, f = record(rng, u, int(rng.integers(10, 60)), step, gaps)
        nolw = rng.random() < 0.1
        if nolw:
            for k in ("LWin", "N"):
                v.pop(k, None)
                f = f.drop(columns=a["names"][f"{k}_var"], errors="ignore")
        hot = rng.random() < 0.1
        if hot:
            k = a["names"]["T2_var"]
            f.loc[f.index[len(f) // 2], k] = float(rng.choice([-290, 400]))
        csv, out, cfg = d / "station.csv", d / "out.nc", d / "u.toml"
        write_csv(f, u, csv)
        dump(u, cfg)
        pairs = [("-i", "--input", csv), ("-o", "--output", out), ("-u", "--utilities", cfg), ("-s", "--static_file", p)]
        per, sub = rng.random() < 0.3, rng.random() < 0.3
        if per:
            b, e, lo, hi = period(rng, t)
            pairs += [("-b", "--start_date", b), ("-e", "--end_date", e)]
            sel = np.asarray((t >= lo) & (t < hi))
            t, v = t[sel], {k: x[sel] for k, x in v.items()}
        if sub:
            i0, i1 = sorted(int(x) for x in rng.integers(0, len(st.lat), 2))
            j0, j1 = sorted(int(x) for x in rng.integers(0, len(st.lon), 2))
            if (st.MASK.values[i0:i1 + 1, j0:j1 + 1] == 1).any():
                pairs += [(None, "--yl", st.lat.values[i0] - 0.002), (None, "--yu", st.lat.values[i1] + 0.002),
                          (None, "--xl", st.lon.values[j0] - 0.002), (None, "--xr", st.lon.values[j1] + 0.002)]
                st = st.isel(lat=slice(i0, i1 + 1), lon=slice(j0, j1 + 1))
            else:
                sub = False
        lab, w = grouped(t, v, a["coords"]["aggregation_step"], False) if agg else (t, v)
        before = digest(csv, cfg, p)
        kind, text = convert(argform(rng, pairs))
        ctx = lambda: {"settings": a, "step": step, "wrf": wrf, "args": [str(x) for q in pairs for x in q[1:]][4:], "record": f.head(5).to_dict("list"), "static": st.to_dict("list"),
                       "said": text[-300:]}
        job.expect(digest(csv, cfg, p) == before, "inputs-changed", "the conversion changed its input files", ctx)
        if mod == "Magic1999":
            job.expect(kind != "ok" and not out.exists(), "unknown-module", "an unknown radiation module was accepted", ctx)
            job.count("refused_module")
            continue
        if nolw:
            job.expect(kind != "ok" and not out.exists(), "no-longwave", "a record without longwave radiation and clouds was converted", ctx)
            job.count("refused_longwave")
            continue
        if hot:
            if not per and not agg:
                job.expect(kind == "ValueError" and not out.exists(), "impossible-temperature", "an impossible temperature was converted", ctx)
                job.count("refused_temperature")
            continue
        if gaps:
            if any(np.isnan(x).any() for x in w.values()):
                job.expect(kind == "ValueError" and not out.exists(), "gaps", "a record with gaps was converted", ctx)
                job.count("gaps_refused")
            continue
        if not job.expect(kind == "ok" and out.exists(), "failed", lambda: f"conversion failed: {kind} {text[-400:]}", ctx):
            continue
        g = load(out)
        want = fields(job, rng, u, st, lab, w)
        m = st.MASK.values == 1
        rad = np.full((len(lab),) + m.shape, np.nan)
        for k, (i, j) in ((k, c) for k in range(len(lab)) for c in np.argwhere(m)):
            rg = w["G"][k]
            if mod == "Wohlfahrt2016":
                _, ze, az = M.solarFParallel(float(st.lat[i]), float(st.lon[j]), a["radiation"]["timezone_lon"], lab[k].dayofyear, lab[k].hour)
                s = np.array([-np.sin(ze) * np.sin(az), -np.sin(ze) * np.cos(az), np.cos(ze)])
                rg = max(0.0, R.wohlfahrt(lab[k].dayofyear, s, float(st.SLOPE.values[i, j]), float(st.ASPECT.values[i, j]) - 180.0, rg, a["radiation"]["zeni_thld"]))
            rad[k, i, j] = rg
        warnings_given(job, g, text, ctx)
        check_grid(job, g, st, want, lab, wrf, ctx, rad)
        for k, c in (("grid", 1), ("wrf", wrf), ("aggregated", agg), ("period", per), ("subset", sub), ("celsius", not a["names"]["in_K"]),
                     ("wohlfahrt" if mod == "Wohlfahrt2016" else "no_radiation", 1)):
            job.count(k, c)
        if rng.random() < 0.2:
            pairs[1] = ("-o", "--output", d / "again.nc")
            k2, _ = convert(argform(rng, pairs))
            job.expect(k2 == "ok" and load(d / "again.nc").identical(g), "repeat", "converting again gives another file", ctx)
            job.count("repeat")
        job.evaluated(len(want) + 8, ("grid", wrf, agg, a["coords"]["aggregation_step"], step, mod, per, sub, tuple(sorted(want)), m.shape, n))
    job.sample(ctx())


def moelg(job):
    import xarray as xr

    import cosipy.modules.radCor as M

    rng = job.rng
    n = 0
    while job.time_left() > 4 or n < 2:
        n += 1
        d = pathlib.Path(job.scratch) / f"m{n}"
        d.mkdir()
        u = settings(rng, d)
        a = u["aws2cosipy"]
        a["lapse"].update(lapse_RH=0.0, lapse_T=float(rng.uniform(-0.01, 0)))
        ny, nx = int(rng.integers(4, 7)), int(rng.integers(4, 7))
        lat0 = float(rng.uniform(-60, 60))
        mask = np.full((ny, nx), np.nan)
        mask[1:-1, 1:-1] = np.where(rng.random((ny - 2, nx - 2)) < 0.4, 1.0, np.nan)
        mask[1, int(rng.integers(1, nx - 1))] = 1
        st = xr.Dataset({k: (("lat", "lon"), x) for k, x in {"HGT": 3000 + rng.uniform(0, 1500, (ny, nx)), "ASPECT": rng.uniform(0, 360, (ny, nx)),
                                                            "SLOPE": rng.uniform(0, 50, (ny, nx)), "MASK": mask}.items()},
                        coords={"lat": lat0 + 0.01 * np.arange(ny), "lon": 20 + 0.01 * np.arange(nx)})
        p = d / "static.nc"
        st.to_netcdf(p)
        step = int(rng.choice([10800, 21600]))
        a["station"]["stationLat"] = lat0
        a["radiation"].update(radiationModule="Moelg2009", dtstep=step, tcart=float(rng.choice([0.0, 26.0])))
        t, v, f = record(rng, u, int(rng.integers(8, 24)), f"{step // 3600}h")
        if "N" not in v:
            v["N"] = np.round(rng.uniform(0, 1, len(t)), 6)
            f[a["names"]["N_var"]] = v["N"]
        csv, out, cfg = d / "station.csv", d / "out.nc", d / "u.toml"
        write_csv(f, u, csv)
        dump(u, cfg)
        pairs = [("-i", "--input", csv), ("-o", "--output", out), ("-u", "--utilities", cfg), ("-s", "--static_file", p)]
        kind, text = convert(argform(rng, pairs))
        ctx = lambda: {"settings": a, "static": st.to_dict("list"), "record": f.head(5).to_dict("list"), "said": text[-300:]}
        if not job.expect(kind == "ok" and out.exists(), "failed", lambda: f"conversion failed: {kind} {text[-400:]}", ctx):
            continue
        g = load(out)
        want = fields(job, rng, u, st, t, v)
        # shadows and sky from the module itself (judged by C34), on the north-up grid; the radiation from the reference
        sp, tc = M.solpars(lat0)
        up = lambda x: x[::-1, :]
        svf = up(M.LUTsvf(up(st.HGT.values), up(mask), up(st.SLOPE.values), up(st.ASPECT.values), st.lat.values[::-1], st.lon.values))
        lut = M.LUTshad(sp, tc, lat0, up(st.HGT.values), up(mask), st.lat.values[::-1], st.lon.values, step, a["radiation"]["tcart"])[:, ::-1, :]
        rad = np.full((len(t), ny, nx), np.nan)
        for k in range(len(t)):
            day, hour = t[k].dayofyear, t[k].hour
            sv = R.vector(lat0, sp[day - 1, 3], -np.radians(180 + step / 3600 * 7.5 - hour * 15 - tc[day - 1, 3] + a["radiation"]["tcart"]))
            if sv[2] <= 0.01:
                rad[k][mask == 1] = 0
            else:
                r, _, _ = R.moelg(sv, sp[day - 1, 2], want["T2"][k], want["PRES"][k], want["RH2"][k], want["N"][k], st.HGT.values, st.SLOPE.values, st.ASPECT.values,
                                  lut[int((day - 1) * 86400 / step + hour // (step / 3600))], svf)
                rad[k][mask == 1] = np.maximum(r, 0)[mask == 1]
        got = g.G.values
        g["G"] = g.G.where(mask == 1)
        check_grid(job, g, st, want, t, False, ctx, rad)
        job.expect((got[:, mask == 1] >= 0).all(), "negative-radiation", "negative radiation", ctx)
        job.count("moelg")
        job.evaluated(len(want) + 8, ("moelg", n, ny, nx, step))
        # with the table written by the first run
        a["radiation"]["LUT"] = True
        dump(u, cfg)
        pairs[1] = ("-o", "--output", d / "again.nc")
        k2, text = convert(argform(rng, pairs))
        if job.expect(k2 == "ok", "failed", lambda: f"conversion with the saved tables failed: {k2} {text[-300:]}", ctx):
            g2 = load(d / "again.nc")
            job.expect(np.array_equal(g2.G.values, got, equal_nan=True), "saved-table", "the saved look-up tables give another radiation", ctx)
        job.count("moelg_lut")
    job.sample(ctx())
