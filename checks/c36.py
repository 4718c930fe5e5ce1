"""C36 static files describe every grid cell of the study area."""
import contextlib
import io
import json
import os
import pathlib
import shutil
import sys
import types

import numpy as np
import xarray as xr

from harness import gdalsim as G
from harness import tomlw

RULE = ("the real create_static main() on generated elevation models and glacier outlines, with stand-ins for the gdal programs, richdem and "
        "rm that work on real files (harness/gdalsim.py); tiled, aggregated, both and neither, repeated with other settings in one process, "
        "with missing data inside and outside the glacier and every external program failing in turn; the folder is compared before and after. "
        "Distinct by (tile, aggregate, grid shape, outline, gaps, fault).")
REQUIRED = {"files": 30, "cells": 2000, "glacier": 300, "tiled": 10, "aggregated": 10, "both": 4, "neither": 4, "gaps_outside": 8, "gaps_inside": 6,
            "faults": 8, "kept_output": 5, "again": 6, "inputs_kept": 40, "non_square": 15, "several_outlines": 6, "southern": 5, "touching_edge": 5, "relative": 20}


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"static-{i}", func="static", budget_s=30 if q else 300, timeout_s=800) for i in range(3 if q else 6)]


def prepare(root):
    """The stand-ins on PATH and the richdem module."""
    G.serve(root)
    rd = types.ModuleType("richdem")

    class Raster(np.ndarray):
        pass

    def load(path, no_data=None):
        d = G.load(path)
        if d is None:
            raise RuntimeError(f"could not open {path}")
        r = d["z"].view(Raster)
        r.source = d
        return r

    def attribute(dem, attrib, zscale=1.0):
        d = dict(dem.source, z=np.asarray(dem))
        if attrib == "aspect":
            return G.aspect(d).view(Raster)
        gx, gy = G.gradient(d, 1.0, True)
        g = zscale * np.hypot(gx, gy)
        return {"slope_riserun": g, "slope_percentage": 100 * g, "slope_degrees": np.degrees(np.arctan(g)), "slope_radians": np.arctan(g)}[attrib].view(Raster)

    rd.LoadGDAL, rd.TerrainAttribute, rd.rdarray = load, attribute, Raster
    sys.modules["richdem"] = rd


def call(argv):
    """main() with this command line; gives (outcome, output)."""
    from cosipy.utilities.createStatic import create_static_file as M

    old, out = sys.argv, io.StringIO()
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            M.main()
        return "ok", out.getvalue()
    except SystemExit as e:
        return ("ok" if not e.code else f"exit {e.code}"), out.getvalue()
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}", out.getvalue()
    finally:
        sys.argv = old


def outline(rng, x0, x1, y0, y1):
    """A star-shaped polygon inside the box."""
    cx, cy = (x0 + x1) / 2, (y0 + y1) / 2
    n = int(rng.integers(5, 14))
    t = np.sort(rng.uniform(0, 2 * np.pi, n))
    r = rng.uniform(0.55, 0.98, n)
    return [[float(cx + r_ * np.cos(t_) * (x1 - x0) / 2), float(cy + r_ * np.sin(t_) * (y1 - y0) / 2)] for r_, t_ in zip(r, t)]


def snapshot(folder):
    return {str(p.relative_to(folder)): p.read_bytes() for p in sorted(folder.rglob("*")) if p.is_file()}


def scene(rng, folder, agg):
    """An elevation model, outlines and settings; gives what the file has to hold."""
    f = int(rng.integers(2, 4)) if agg else 1
    ny, nx = int(rng.integers(9, 20)) * f, int(rng.integers(9, 20)) * f
    step = float(rng.choice([0.001, 0.01, 1 / 1200]))
    lat_s = float(np.round(rng.uniform(-70, 70) / step) * step)
    lon_w = float(np.round(rng.uniform(-170, 170) / step) * step)
    d = dict(ulx=lon_w, uly=lat_s + ny * step, dx=step, dy=step)
    y, x = np.mgrid[0:ny, 0:nx]
    z = float(rng.uniform(100, 5000)) + rng.uniform(-20, 20) * y + rng.uniform(-20, 20) * x
    z = z + rng.uniform(0, 300, z.shape) * (rng.random() < 0.7)
    z = z - min(z.min() - 1, 0)
    d["z"] = np.round(z) if rng.random() < 0.5 else z.astype("f4").astype(float)
    tile = bool(rng.random() < 0.55)
    if tile:                                                # a window on cell borders, whole blocks if aggregated
        h, w = (int(rng.integers(6, n // f + 1)) * f for n in (ny, nx))
        r0, c0 = int(rng.integers(0, ny - h + 1)), int(rng.integers(0, nx - w + 1))
    else:
        h, w, r0, c0 = ny, nx, 0, 0
    box = dict(longitude_upper_left=d["ulx"] + c0 * step, latitude_upper_left=d["uly"] - r0 * step,
               longitude_lower_right=d["ulx"] + (c0 + w) * step, latitude_lower_right=d["uly"] - (r0 + h) * step)
    gap = str(rng.choice(["none", "none", "outside", "inside", "edge"]))
    m = 2.2 * step * f if gap != "edge" else -1.5 * step * f
    shapes = [outline(rng, box["longitude_upper_left"] + m, box["longitude_lower_right"] - m, box["latitude_lower_right"] + m, box["latitude_upper_left"] - m)]
    if rng.random() < 0.4 and gap != "edge":                # a second one, overlapping or apart
        xs = sorted(rng.uniform(box["longitude_upper_left"] + m, box["longitude_lower_right"] - m, 2))
        ys = sorted(rng.uniform(box["latitude_lower_right"] + m, box["latitude_upper_left"] - m, 2))
        shapes.append(outline(rng, xs[0], xs[1], ys[0], ys[1]))

    def fields():
        zz = d["z"][r0:r0 + h, c0:c0 + w]
        if f > 1:
            b = zz.reshape(h // f, f, w // f, f)
            ok = ~np.isnan(b)
            with np.errstate(invalid="ignore", divide="ignore"):
                zz = np.where(ok, b, 0).sum((1, 3)) / ok.sum((1, 3))
        s = step * f
        lat = box["latitude_upper_left"] - (np.arange(h // f) + 0.5) * s
        lon = box["longitude_upper_left"] + (np.arange(w // f) + 0.5) * s
        on = np.zeros(zz.shape, bool)
        for p in shapes:
            on |= G.inside(p, lon[None, :], lat[:, None])
        return zz, lat, lon, on, s

    zz, lat, lon, on, s = fields()
    near = np.zeros(on.shape, bool)
    for a in (-1, 0, 1):
        for c in (-1, 0, 1):
            near |= np.roll(np.roll(on, a, 0), c, 1)
    if gap in ("outside", "inside"):
        where = np.argwhere(~near if gap == "outside" else on)
        if len(where):
            i, j = where[rng.integers(len(where))]
            d["z"][r0 + i * f:r0 + (i + 1) * f, c0 + j * f:c0 + (j + 1) * f] = np.nan
        else:
            gap = "none"
        zz, lat, lon, on, s = fields()
    G.save_tif(folder / "DEM" / "area.tif", d)
    (folder / "Shapefiles" / "glacier.shp").write_text(json.dumps(shapes))
    on &= ~np.isnan(zz)
    want = dict(z=zz, ulx=0, uly=0, dx=s, dy=s)
    slope, aspect = G.slope(want, 111120.0)["z"], G.aspect(want)
    bad = bool((on & (np.isnan(slope) | np.isnan(aspect))).any())
    if gap == "inside" and not bad:                         # nobody beside the missing cell is on the glacier
        gap = "outside"
    coords = dict(tile=tile, aggregate=agg, aggregate_degree=s if agg else float(rng.choice([0.003, 0.5])), **box)
    if not tile and rng.random() < 0.5:                     # ignored then
        coords.update(longitude_upper_left=1.5, latitude_upper_left=2.5, longitude_lower_right=3.5, latitude_lower_right=0.5)
    return dict(coords=coords, z=zz, lat=lat, lon=lon, on=on, slope=slope, aspect=aspect, bad=bad, gap=gap, shapes=len(shapes))


def judge(job, path, w, printed, ctx):
    ok = True
    with xr.open_dataset(path) as ds:
        ds = ds.load()
    names = {"HGT", "ASPECT", "SLOPE", "MASK"}
    if not job.expect(names <= set(ds.data_vars) and set(ds.dims) == {"lat", "lon"}, "layout", lambda: f"the file holds {sorted(ds.variables)} over {dict(ds.sizes)}", ctx):
        return
    ny, nx = w["z"].shape
    if not job.expect(ds.sizes["lat"] == ny and ds.sizes["lon"] == nx, "grid", lambda: f"grid {dict(ds.sizes)}, expected {ny} x {nx}", ctx):
        return
    lat, lon = ds.lat.values, ds.lon.values
    ok &= job.expect((np.diff(lat) > 0).all() and (np.diff(lon) > 0).all(), "order", "coordinates do not ascend", ctx)
    tol = 1e-3 * (w["lat"][0] - w["lat"][1])
    iy = [int(np.argmin(abs(w["lat"] - v))) for v in lat]
    ix = [int(np.argmin(abs(w["lon"] - v))) for v in lon]
    ok &= job.expect(np.allclose(w["lat"][iy], lat, atol=tol, rtol=0) and np.allclose(w["lon"][ix], lon, atol=tol, rtol=0) and len(set(iy)) == ny and len(set(ix)) == nx,
                     "coordinates", "coordinates are not those of the cells of the elevation model", ctx)
    if not ok:
        return
    for v in sorted(names):
        job.expect(ds[v].dims == ("lat", "lon"), "dims", lambda: f"{v} lies on {ds[v].dims}", ctx)
    sel = np.ix_(iy, ix)
    on = w["on"][sel]

    def same(name, want, mask, atol, key):
        got = ds[name].values
        bad = mask & ~(abs(got - want) <= atol)
        i, j = (np.argwhere(bad)[0] if bad.any() else (0, 0))
        job.expect(not bad.any(), key, lambda: f"{name} at {lat[i]:.5f}, {lon[j]:.5f} is {got[i, j]}, expected {want[i, j]} ({bad.sum()} cells)", ctx)
        job.count("cells", mask.sum())

    z = w["z"][sel]
    there = ~np.isnan(z)
    same("HGT", z, there, 1e-2, "height")
    job.expect(np.isnan(ds.HGT.values[~there]).all(), "height-gap", "heights where the elevation model has none", ctx)
    s = w["slope"][sel]
    same("SLOPE", s, ~np.isnan(s), 2e-2, "slope")
    a, got = w["aspect"][sel], ds.ASPECT.values
    steep = there & ~np.isnan(a) & (np.nan_to_num(s, nan=0.0) > 1e-2)
    d = abs((got - a + 180) % 360 - 180)
    job.expect((d[steep] <= 0.1).all(), "aspect", lambda: f"aspect differs by up to {np.nanmax(d[steep]):.2f} degrees", ctx)
    mask = ds.MASK.values
    job.expect((mask[on] == 1).all(), "mask-inside", lambda: f"{(mask[on] != 1).sum()} of {on.sum()} glacier cells are not marked", ctx)
    job.expect((mask[~on] != 1).all(), "mask-outside", lambda: f"{(mask[~on] == 1).sum()} cells outside the outline are marked", ctx)
    job.expect(not np.isin(mask[~on][~np.isnan(mask[~on])], [1]).any() and (np.isnan(mask[~on]) | (mask[~on] <= 0)).all(), "mask-values", "neither glacier nor outside", ctx)
    units = {"HGT": "meters", "ASPECT": "degrees", "SLOPE": "degrees", "lat": "degrees_north", "lon": "degrees_east"}
    for v, u in units.items():
        job.expect(ds[v].attrs.get("units") == u, "units", lambda: f"{v} in {ds[v].attrs.get('units')}", ctx)
    words = [t for t in printed.replace(",", " ").split() if t.replace(".", "").isdigit()]
    job.expect(any(float(t) == on.sum() for t in words if t.count(".") <= 1), "count", lambda: f"the number of glacier cells ({on.sum()}) is not reported", lambda: {"printed": printed[-300:]})
    job.count("glacier", on.sum())


def static(job):
    rng, root = job.rng, pathlib.Path.cwd() / "study"
    root.mkdir()
    prepare(root)
    n = 0
    while n < 25 or job.time_left() > 0:
        n += 1
        folder = root / f"case{n}"
        for s in ("DEM", "Shapefiles"):
            (folder / s).mkdir(parents=True)
        agg = bool(rng.random() < 0.5)
        w = scene(rng, folder, agg)
        (folder / "notes.txt").write_text("keep")
        (folder / "DEM" / "other.nc").write_text("keep too")
        fault = None
        if not w["bad"] and w["on"].any() and rng.random() < 0.45:
            c = ["gdal_translate:1", "gdaldem:1", "gdalwarp:1"] + ["gdal_translate:2"] * w["coords"]["tile"] + ["gdalwarp:2"] * agg
            fault = str(rng.choice(c))
        relative = bool(rng.random() < 0.4)
        name = str(rng.choice(["static.nc", "Zhadang_static.nc", "out/area.nc"]))
        (folder / "out").mkdir()
        prior = rng.random() < 0.4
        if prior:                                          # an output of an earlier run
            xr.Dataset({"HGT": (("lat", "lon"), np.full((3, 2), 7.0))}, coords={"lat": [0., 1, 2], "lon": [3., 4]}).to_netcdf(folder / name)
        cp = root / f"cfg{n}.toml"
        tomlw.dump({"create_static.paths": dict(static_folder=f"./{folder.relative_to(pathlib.Path.cwd())}/" if relative else f"{folder}/", dem_path="DEM/area.tif", shape_path="Shapefiles/glacier.shp", output_file=name),
                    "create_static.coords": w["coords"]}, cp)
        before = snapshot(folder)
        for rerun in range(2 if (rng.random() < 0.35 and not w["bad"]) else 1):
            pathlib.Path(os.environ["GDALSIM_LOG"]).unlink(missing_ok=True)
            os.environ.pop("GDALSIM_FAIL", None)
            if fault and rerun == 0:
                os.environ["GDALSIM_FAIL"] = fault
            outcome, printed = call(["create_static", "-u", str(cp)])
            os.environ.pop("GDALSIM_FAIL", None)
            after = snapshot(folder)
            log = [json.loads(s) for s in pathlib.Path(os.environ["GDALSIM_LOG"]).read_text().splitlines()] if os.path.exists(os.environ["GDALSIM_LOG"]) else []
            ctx = lambda: {"settings": w["coords"], "gap": w["gap"], "fault": fault, "rerun": rerun, "outcome": outcome, "calls": log,
                           "grid": w["z"].shape, "output": name, "earlier_output": bool(prior)}
            kept = {k: v for k, v in before.items() if k != name}
            job.expect(all(after.get(k) == v for k, v in kept.items()), "other-files", lambda: f"changed or removed: {[k for k, v in kept.items() if after.get(k) != v]}", ctx)
            job.count("inputs_kept")
            if fault and rerun == 0:
                job.expect(outcome != "ok", "silent-failure", lambda: f"{fault} failed but the program reported success", ctx)
                job.expect(after.get(name) == before.get(name), "written-after-failure", lambda: f"{fault} failed but the static file was written", ctx)
                job.count("faults")
                job.count("kept_output", bool(prior))
            elif w["bad"]:
                job.expect(outcome != "ok", "nan-accepted", "missing values on the glacier were accepted", ctx)
                job.expect(after.get(name) == before.get(name), "nan-written", "a static file with missing values on the glacier was written", ctx)
                job.count("gaps_inside")
                job.count("touching_edge", w["gap"] == "edge")
                job.count("kept_output", bool(prior))
            else:
                if not job.expect(outcome == "ok" and name in after, "no-file", lambda: f"no static file: {outcome[:200]}", ctx):
                    break
                job.expect(set(after) == set(before) | {name}, "left-over", lambda: f"left behind: {sorted(set(after) - set(before) - {name})}", ctx)
                judge(job, folder / name, w, printed, ctx)
                job.count("files")
                job.count("again", rerun)
                job.count("tiled", w["coords"]["tile"])
                job.count("aggregated", agg)
                job.count("both" if w["coords"]["tile"] and agg else "neither" if not w["coords"]["tile"] and not agg else "one")
                job.count("gaps_outside", w["gap"] == "outside")
                job.count("non_square", w["z"].shape[0] != w["z"].shape[1])
                job.count("several_outlines", w["shapes"] > 1)
                job.count("southern", w["lat"][0] < 0)
            job.count("relative", relative)
            job.evaluated(1, (w["coords"]["tile"], agg, w["gap"], fault, rerun, name, w["shapes"], w["z"].shape, bool(prior)))
        shutil.rmtree(folder)
    job.sample(ctx())
