"""C19 initial column and reloaded column."""
import os

import numpy as np
import xarray as xr

from checks.common import VARIANTS, as_ref, columns, grid_ref, specs, traces
from harness import gen, ref

RULE = ("cold: random cells (initial snow height field given/absent/missing/zero/thin/thick, air temperature above "
        "and below melting) x initial-condition settings. reload: random columns with random snow-age state written "
        "to a restart dataset (in memory and through a netCDF file) and read back; distinct by rounded column.")
REQUIRED = {"cold.calls": 200, "cold.bare": 20, "cold.one_layer": 20, "cold.layered": 60, "cold.missing": 10,
            "reload.calls": 100, "reload.file": 20, "runs": 4}
INI = {
    "default": {},
    "deepsnow": {"initial_snowheight_constant": 2.7, "initial_top_density_snowpack": 180.0,
                 "initial_bottom_density_snowpack": 520.0, "initial_glacier_height": 12.5,
                 "initial_glacier_layer_heights": 0.25, "temperature_bottom": 262.3},
    "bare": {"initial_snowheight_constant": 0.0, "initial_glacier_height": 5.2, "initial_glacier_layer_heights": 0.4},
    "thin": {"initial_snowheight_constant": 0.034, "temperature_bottom": 273.0, "ice_density": 905.0,
             "air_density": 1.3, "max_layers": 250},
}


def jobs(tier, seed):
    out = []
    for f, b in (("cold", (5, 40)), ("reload", (8, 50)), ("resume", (8, 60))):
        ss = specs(["default"] * len(INI), f, tier, budget=b)
        for i, s in enumerate(ss):
            v = list(INI)[i % len(INI)]
            s.update(name=f"{f}-{v}-{i}", constants=INI[v])
            s["params"] = dict(variant=v)
        out += ss if f != "resume" else ss[:2]
    return out


def cold(job):
    from cosipy.cpkernel.init import init_snowpack

    C, r = job.C, job.rng
    n = 0
    while job.time_left() > 0 or n < 30:
        n += 1
        kind = int(r.integers(7))
        S = [None, np.nan, 0.0, float(r.uniform(1e-3, 0.099)), float(r.uniform(0.1, 0.55)),
             float(r.uniform(0.5, 6)), float(r.choice([0.1, 0.2, 0.3, 0.5, 1.0]))][kind]
        T2 = r.uniform(244, 300, 3)
        ds = xr.Dataset({"T2": ("time", T2)})
        if S is not None:
            ds["SNOWHEIGHT"] = ((), S)
        g = init_snowpack(ds)
        s = grid_ref(g)
        snow = C["initial_snowheight_constant"] if S is None else (0.0 if np.isnan(S) else S)
        ctx = lambda: {"snowheight": S, "T2": T2[0], "column": s}
        job.count("cold.calls")
        job.count("cold.missing", S is not None and np.isnan(S))
        dz, H = C["initial_glacier_layer_heights"], C["initial_glacier_height"]
        ng = int(H / dz)
        rho = ref.density(s, C)
        issnow = rho < C["snow_ice_threshold"]
        job.count("cold.bare" if snow == 0 else ("cold.one_layer" if issnow.sum() == 1 else "cold.layered"))
        job.expect(ref.close(s["h"][issnow].sum(), snow, 1e-9) and ref.close(float(g.get_total_snowheight()), snow, 1e-9),
                   "cold:snow-height", lambda: f"snow height {s['h'][issnow].sum()!r}, configured {snow!r}", ctx)
        job.expect(ref.close(s["h"][~issnow].sum(), ng * dz, 1e-9), "cold:ice-height",
                   lambda: f"ice thickness {s['h'][~issnow].sum()!r}, configured {ng * dz!r}", ctx)
        job.expect(not np.any(np.diff(issnow.astype(int)) > 0), "cold:order", "snow below ice", ctx)
        job.expect(np.allclose(rho[~issnow], C["ice_density"], rtol=1e-6), "cold:ice-density", "ice density", ctx)
        a, b = C["initial_top_density_snowpack"], C["initial_bottom_density_snowpack"]
        rs = rho[issnow]
        job.expect(np.all(rs >= min(a, b) - 2) and np.all(rs <= max(a, b) + 2) and np.all(np.diff(rs) >= -1e-9),
                   "cold:snow-density", lambda: f"snow densities {rs}", ctx)
        top = min(T2[0], C["zero_temperature"])
        lo, hi = sorted((top, C["temperature_bottom"]))
        job.expect(np.all(s["T"] >= lo - 0.05) and np.all(s["T"] <= hi + 0.05), "cold:temperature",
                   lambda: f"temperatures {s['T'].min()}..{s['T'].max()} outside {lo}..{hi}", ctx)
        job.expect(np.all(s["lwc"] == 0) and tuple(s["props"]) == (0.0, 0.0, 0.0), "cold:dry",
                   "initial column is wet or has a snow age", ctx)
        if snow == 0 or abs(snow / 0.1 - round(snow / 0.1)) > 1e-6:
            d = ref.diff(s, ref.initial(T2[0], snow, C))
            job.expect(d is None, "cold:profile", f"initial profile: {d}", ctx)
        job.evaluated(8, (round(snow, 4), round(T2[0], 1), job.params["variant"]))
        job.sample({"snowheight": S, "T2": T2[0], "layers": len(s["h"])})


def restart_dataset(job, c, g, names):
    """What the model writes at its end, for this column."""
    from cosipy.cpkernel.io import IOClass

    n = g.get_number_layers()
    ds = xr.Dataset(coords={"time": np.datetime64("2009-01-05T00:00"), "lat": 30.0, "lon": 90.0})
    m = job.C["max_layers"]

    def pad(v):
        x = np.full(m, np.nan)
        x[:n] = v
        return ("layer", x)

    ds["NLAYERS"] = float(n)
    for k, v in zip(names, g.get_fresh_snow_props()):
        ds[k] = float(v)
    ds["LAYER_HEIGHT"] = pad(g.get_height())
    ds["LAYER_RHO"] = pad(g.get_density())
    ds["LAYER_T"] = pad(g.get_temperature())
    ds["LAYER_LWC"] = pad(g.get_liquid_water_content())
    ds["LAYER_IF"] = pad(g.get_ice_fraction())
    return ds


def same(job, a, b, key, what, ctx):
    d = ref.diff(a, b, rtol=0, atol=0)
    ok = job.expect(d is None, key + ":layers", f"{what}: {d}", ctx)
    return job.expect(tuple(a["props"]) == tuple(b["props"]), key + ":age",
                      lambda: f"{what}: snow-age state {a['props']} instead of {b['props']}", ctx) and ok


def reload(job):
    from cosipy.cpkernel.init import load_snowpack

    up = ("NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP")
    lowc = ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")
    for i, c in columns(job):
        g = gen.make_grid(c)
        before = grid_ref(g)
        names = up if i % 3 else lowc
        ds = restart_dataset(job, c, g, names)
        if i % 4 == 0:
            p = str(job.scratch / "r.nc")
            ds.to_netcdf(p, encoding={v: dict(zlib=True, complevel=2) for v in ds.data_vars if ds[v].ndim})
            ds = xr.load_dataset(p)
            os.remove(p)
            job.count("reload.file")
        s = grid_ref(load_snowpack(ds))
        ctx = lambda: {"column": c, "reloaded": s}
        job.count("reload.calls")
        same(job, s, before, "reload", "column read back from restart data", ctx)
        job.expect(np.allclose(ref.density(s, job.C), ref.density(before, job.C), rtol=0, atol=0), "reload:density",
                   "density changed by reloading", ctx)
        job.evaluated(4, gen.signature(c))
        job.sample({"layers": len(before["h"]), "props": before["props"]})


def resume(job):
    """The restart data a real run returns reload to its final column."""
    from cosipy.cpkernel.init import load_snowpack

    for info, ds, tr in traces(job, nt=12, min_cases=3, resumed=False):
        from harness import trace
        last = trace.state(tr, len(tr["TS"]) - 1)
        s = grid_ref(load_snowpack(tr["RESTART"]))
        job.count("runs")
        same(job, s, last, "resume", "column reloaded from a run's restart data", lambda: {"info": info, "reloaded": s, "reported": last})
        job.evaluated(2, (info["start"], info["flavour"], len(s["h"])))
