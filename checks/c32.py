"""C32 post-processing: what the plotting and export tools show against the stored output file."""
import contextlib
import io as _io
import os
import re
import sys

import numpy as np
import pandas as pd
import xarray as xr

from checks.c01 import make, stamp
from checks.common import FULL
from harness import e2e, ref

RULE = ("output files written by real runs (with randomised values, time steps, domains and both grid layouts) opened with the "
        "three post-processing programs through their command lines; what reaches the plotting backend or the exported file "
        "(coordinates, values, labels, titles, file names) compared with the stored data. Distinct by file, tool and selection.")
REQUIRED = {"files": 6, "fields": 20, "fields.mesh": 6, "fields.contour": 6, "fields.stamp": 2, "fields.mean": 4, "fields.refused": 6,
            "fields.wrf": 2, "profiles": 10, "profiles.depths": 4, "series": 8, "series.period": 2, "series.ticks": 5, "dem": 4, "scalars": 4,
            "scalars.mean": 1, "saved": 6}
MESH = [["H", "LE", "B"], ["SNOWHEIGHT", "surfM", "TS"], ["G", "Q", "LWout"], ["surfMB", "MB", "REFREEZE"]]
CONT = [["H", "LE", "B"], ["SNOWHEIGHT", "surfM", "TS"], ["G", "LWin", "LWout"], ["MB", "surfMB", "Q"]]
SERIES = dict(T=("LAYER_T", "Temperature [K]"), RHO=("LAYER_RHO", "Density [kg m^-3]"), IF=("LAYER_ICE_FRACTION", "Ice fraction [-]"),
              REF=("LAYER_REFREEZE", "Refreezing [m w.e.]"), LWC=("LAYER_LWC", "Liquid Water Content [-]"),
              POR=("LAYER_POROSITY", "Air Porosity [-]"), HEIGHT=("LAYER_HEIGHT", "Layer height [m]"), DEPTH=(None, "Depth [m]"))


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"{f}-{c}", func=f, mode="interp", config=FULL, budget_s=25 if q else 150,
                 timeout_s=300 if q else 600, params={}) for f in ("fields", "profiles", "vtk") for c in range(2 if q else 4)]


# ---------------------------------------------------------------- output files
def real_output(job, wrf=False):
    """A file a real run wrote (at least 2 x 2 cells, three days)."""
    nt = 60
    while True:
        ds = make(job, nt, wrf, my=4, mx=4)
        if min(ds.MASK.shape) > 1:
            break
    o = e2e.ok(job, e2e.run_main(job, {
        "SIMULATION_PERIOD": {"time_start": stamp(ds.time.values[0]), "time_end": stamp(ds.time.values[-1])},
        "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"}, "DIMENSIONS": {"WRF": wrf},
        "FULL_FIELDS": {"full_field": True}, "RESTART": {"restart": False}}, input_ds=ds))
    return o.result


def variants(job, wrf=False):
    """Endless stream of output files derived from a real one: every value distinct, other time axes and coordinates."""
    rng = job.rng
    base = real_output(job, wrf)
    yield base, "as-written"
    while True:
        d = base.copy(deep=True)
        if rng.random() < 0.3:
            base = real_output(job, wrf) if job.time_left() > job.budget / 2 else base
        step = rng.choice([3600, 3600, 900, 1800, 10800, 21600, 43200, 86400])
        start = np.datetime64("2008-12-28T00:00") + np.timedelta64(int(rng.integers(0, 60 * 24)), "h")
        if rng.random() < 0.5:
            start = start.astype("datetime64[D]")
        d = d.assign_coords(time=pd.date_range(pd.Timestamp(start), periods=d.sizes["time"], freq=f"{int(step)}s"))
        for n, v in d.data_vars.items():
            if n in ("MASK", "LAYER_HEIGHT", "SNOWHEIGHT") or v.dtype.kind != "f":
                continue
            d[n].values[...] = v.values + rng.normal(0, 1, v.shape) * (abs(np.nanmean(v.values)) * 0.05 + 0.01)
        if not wrf:
            if rng.random() < 0.4:
                d = d.isel(lat=slice(None, None, -1))
            if rng.random() < 0.5:
                d = d.assign_coords(lon=np.round(rng.uniform(-150, 150), 2) + np.cumsum(rng.uniform(0.002, 0.05, d.sizes["lon"])),
                                    lat=np.round(rng.uniform(-65, 65), 2) + np.cumsum(rng.uniform(0.002, 0.05, d.sizes["lat"])))
        yield d, f"step {step}"


def save(job, d):
    """Write under a fresh name (the tools leave their files open); keeps only the newest few."""
    k = job.counters.get("files", 0)
    p = os.path.abspath(f"f{k}.nc")
    if os.path.exists(f"f{k - 4}.nc"):
        os.unlink(f"f{k - 4}.nc")
    d.to_netcdf(p)
    job.count("files")
    return p


def stampstr(rng, t):
    """The same instant as users write it."""
    t = pd.Timestamp(t)
    return str(rng.choice([t.strftime("%Y-%m-%dT%H:%M"), t.strftime("%Y-%m-%d %H:%M"), t.strftime("%Y-%m-%dT%H:%M:%S")]))


def day_mean(v, day):
    sel = v.time.values.astype("datetime64[D]") == np.datetime64(day, "D")
    with np.errstate(all="ignore"):
        return np.nanmean(v.values[sel], axis=0) if sel.any() else None


class Recorder:
    """Records what reaches the plotting backend (data, axes, labels) of one call."""

    def __init__(self):
        import matplotlib

        matplotlib.use("Agg", force=True)
        import matplotlib.axes
        import matplotlib.pyplot as plt

        self.plt, self.calls, self.fig = plt, [], None
        self.patched = []

    def wrap(self, cls, name):
        orig = getattr(cls, name)

        def f(ax, *a, **k):
            n = len(self.calls)
            r = orig(ax, *a, **k)
            self.calls[n:] = [c for c in self.calls[n:] if c["name"] != name]      # one entry per outermost call
            self.calls.append(dict(name=name, ax=ax, args=a, kw=k, out=r))
            return r

        self.patched.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, f)

    def __enter__(self):
        from matplotlib.axes import Axes
        classes = [Axes]
        try:
            from cartopy.mpl.geoaxes import GeoAxes
            classes.append(GeoAxes)
        except ImportError:
            pass
        for name in ("pcolormesh", "contourf", "contour", "step", "plot", "scatter"):
            self.wrap(classes[-1] if name in classes[-1].__dict__ else Axes, name)
        self.wrap_axes_too(Axes)
        self.show = self.plt.show
        self.plt.show = lambda *a, **k: setattr(self, "fig", self.plt.gcf())
        return self

    def wrap_axes_too(self, Axes):
        for name in ("pcolormesh", "contourf", "contour", "scatter"):
            if not any(c is Axes and n == name for c, n, _ in self.patched):
                self.wrap(Axes, name)

    def __exit__(self, *a):
        self.plt.show = self.show
        for cls, name, orig in reversed(self.patched):
            if orig is None:
                delattr(cls, name)
            else:
                setattr(cls, name, orig)
        return False

    def of(self, name):
        return [c for c in self.calls if c["name"] == name]


def command(job, module, args, rec):
    """Run a program's main() with a command line; returns (stdout, exception)."""
    old = sys.argv
    sys.argv = ["prog", *args]
    buf = _io.StringIO()
    exc = None
    try:
        with rec, contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            module()
    except BaseException as e:  # noqa: BLE001
        exc = e
    finally:
        sys.argv = old
        fig = rec.plt.gcf() if rec.plt.get_fignums() else None
        rec.fig = rec.fig or fig
    return buf.getvalue(), exc


# --------------------------------------------------------------- field plots
def shown(call, kind):
    """{(lon, lat): value} of what a mesh or contour call displays."""
    a = [np.asarray(x) if not np.ma.isMaskedArray(x) else np.ma.filled(x.astype(float), np.nan) for x in call["args"][:3]]
    x, y, z = a
    if kind == "mesh":
        x, y = centres(x, z.shape, 1), centres(y, z.shape, 0)
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    return x, y, z.astype(float)


def centres(c, shape, axis):
    """Cell centres from whatever pcolormesh was given (centres or edges)."""
    n = shape[axis]
    if c.ndim == 1:
        return c if len(c) == n else 0.5 * (c[1:] + c[:-1])
    return c if c.shape == shape else 0.25 * (c[1:, 1:] + c[:-1, 1:] + c[1:, :-1] + c[:-1, :-1])


def field_grid(v, values):
    """lon, lat, values of the stored field as 2-D arrays."""
    if v.lat.ndim == 1:
        lon, lat = np.meshgrid(v.lon.values, v.lat.values)
    else:
        lon, lat = v.lon.values, v.lat.values
    return lon, lat, values


def by_rank(x, y, z):
    """The same field with columns and rows in ascending order."""
    if np.ptp(x, axis=1).sum() < np.ptp(x, axis=0).sum():
        x, y, z = x.T, y.T, z.T
    i, j = np.argsort(y.mean(axis=1)), np.argsort(x.mean(axis=0))
    return tuple(a[i][:, j] for a in (x, y, z))


def same_mesh(got, want, gap):
    """A mesh on an uneven grid is not centred on its cells: compare row by row and column by column."""
    g, w = by_rank(*got), by_rank(*want)
    if g[2].shape != w[2].shape:
        return f"{g[2].shape} values shown, {w[2].shape} stored"
    if max(abs(g[0] - w[0]).max(), abs(g[1] - w[1]).max()) > gap:
        return "cells are shown at other places"
    bad = ~np.isclose(g[2], w[2], rtol=1e-9, atol=1e-12, equal_nan=True)
    return f"shows {g[2][bad][:3]}, stored {w[2][bad][:3]}" if bad.any() else None


def same_field(got, want, tol):
    """Every stored value is shown at its own place (axis order and orientation do not matter)."""
    gx, gy, gz = (np.asarray(a).ravel() for a in got)
    wx, wy, wz = (np.asarray(a).ravel() for a in want)
    if gz.size != wz.size:
        return f"{gz.size} values shown, {wz.size} stored"
    for i in range(wz.size):
        j = np.argmin((gx - wx[i]) ** 2 + (gy - wy[i]) ** 2)
        if abs(gx[j] - wx[i]) > tol or abs(gy[j] - wy[i]) > tol:
            return f"nothing shown at lon {wx[i]}, lat {wy[i]}"
        a, b = gz[j], wz[i]
        if not (np.isnan(a) and np.isnan(b)) and not ref.close(a, b, 1e-9, 1e-12):
            return f"at lon {wx[i]}, lat {wy[i]} shows {a!r}, stored {b!r}"
    return None


def fields(job):
    from cosipy.postprocessing.field_plots import plot_cosipy_fields as tool
    import matplotlib.pyplot as plt

    rng = job.rng
    files = {False: variants(job), True: variants(job, True)}
    n = 0
    while job.time_left() > 0 or n < 6:
        wrf = n % 3 == 1
        n += 1
        d, how = next(files[wrf])
        path = save(job, d)
        for rep in range(5):
            for p in os.listdir("."):
                if p.endswith(".png"):
                    os.unlink(p)
            t = d.time.values[int(rng.integers(d.sizes["time"]))]
            days = d.time.values.astype("datetime64[D]")
            mean = bool(rng.random() < 0.4)
            kind = str(rng.choice(["mesh", "contour"]))
            names = [v for v in d.data_vars if d[v].dims[0] == "time" and d[v].ndim == 3] + ["HGT"]
            var = None if rep == 0 and n % 3 == 0 else str(rng.choice(names))
            refuse = None
            size = int((days == t.astype("datetime64[D]")).sum())
            date = stampstr(rng, t)
            if mean and rng.random() < 0.5 or not mean and rng.random() < 0.15:
                date = str(t.astype("datetime64[D]"))
                if not mean and size > 1 and var != "HGT":
                    refuse = KeyError
            elif not mean and rng.random() < 0.1 and var != "HGT":
                date = stampstr(rng, t + np.timedelta64(431, "s"))
                refuse = KeyError
            src = path
            if rng.random() < 0.06:
                lat = "south_north" if wrf else "lat"
                src, refuse = save(job, d.isel({lat: slice(0, 1)})), ValueError
            do_save = bool(rng.random() < 0.6)
            args = [str(rng.choice(["-i", "--input"])), src, str(rng.choice(["-d", "--date"])), date]
            if kind == "mesh" or rng.random() < 0.5:
                args += [str(rng.choice(["-t", "--type"])), "2" if kind == "mesh" else "1"]
            args += (["-m"] if mean else []) + (["-s"] if do_save else []) + ([str(rng.choice(["-v", "--var"])), var] if var else [])
            plt.close("all")
            rec = Recorder()
            out, exc = command(job, tool.main, args, rec)
            job.count("fields")
            job.count("fields.wrf", wrf)
            ctx = lambda: {"args": args, "file": how, "wrf": wrf, "time": str(t), "shape": dict(d.sizes), "exception": repr(exc)}
            if refuse:
                job.expect(isinstance(exc, refuse), "refuse", lambda: f"a selection that cannot be shown was not refused with {refuse.__name__}", ctx)
                job.count("fields.refused")
                job.evaluated(1, (n, rep, "refused"))
                continue
            if exc is not None:
                job.violation("fields:raised", f"plotting raised {exc!r}", ctx())
                continue
            want_names = [k for row in (MESH if kind == "mesh" else CONT) for k in row] if var is None else [var]
            calls = rec.of("pcolormesh" if kind == "mesh" else "contourf")
            calls = [c for c in calls if len(c["args"]) >= 3]
            axes = []
            for c in calls:
                if c["ax"] not in axes and c["ax"].get_title():
                    axes.append(c["ax"])
            per_ax = {id(a): [c for c in calls if c["ax"] is a][-1] for a in axes}
            if not job.expect(len(axes) == len(want_names), "panels", lambda: f"{len(axes)} panels shown, {len(want_names)} expected", ctx):
                continue
            axes.sort(key=lambda a: (-round(a.get_subplotspec().get_position(rec.fig).y0, 4), a.get_subplotspec().get_position(rec.fig).x0))
            for ax, name in zip(axes, want_names):
                v = d[name]
                if name == "HGT":
                    values = v.values
                elif mean:
                    values = day_mean(v, t)
                else:
                    values = v.sel(time=t).values
                gap = max(np.abs(np.diff(d.lon.values)).max(), np.abs(np.diff(d.lat.values)).max())     # uneven grids: cells are not centred
                bad = (same_mesh if kind == "mesh" else same_field)(shown(per_ax[id(ax)], kind), field_grid(v, values),
                                                                    gap if kind == "mesh" else 1e-6)
                job.expect(bad is None, "field:" + ("mean" if mean else "step"), lambda: f"{name}: {bad}", ctx)
                job.expect(ax.get_title().lower() == v.attrs["long_name"].lower(), "title",
                           lambda: f"panel of {name} is titled {ax.get_title()!r}", ctx)
                m = per_ax[id(ax)]["out"]
                cb = getattr(m, "colorbar", None)
                label = cb.ax.get_ylabel() if cb is not None else None
                job.expect(label == v.attrs["units"], "units", lambda: f"colour bar of {name} is labelled {label!r}, unit {v.attrs['units']!r}", ctx)
                # what is coloured is what was asked to be coloured
                if kind == "mesh":
                    arr = np.ma.filled(np.ma.asarray(m.get_array(), float), np.nan).ravel()
                    job.expect(np.isfinite(arr).sum() == np.isfinite(values).sum(), "coloured", "number of coloured cells", ctx)
                top = [c for c in rec.of("contour") if c["ax"] is ax and len(c["args"]) >= 3]
                if job.expect(bool(top), "topography", f"no elevation contours in the panel of {name}", ctx):
                    bad2 = same_field(shown(top[-1], "contour"), field_grid(d.HGT, d.HGT.values), 1e-9)
                    job.expect(bad2 is None, "topography", lambda: f"elevation contours: {bad2}", ctx)
                job.evaluated(6, (how, kind, name, mean, wrf, n, rep))
            pngs = sorted(p for p in os.listdir(".") if p.endswith(".png"))
            want = []
            if do_save:
                stem = re.sub(r"\W+", "", date)
                want = [f"{stem}_{var if var else 'stamp_plot'}_{kind}.png"]
                job.count("saved")
            job.expect(pngs == want, "saved-file", lambda: f"files written {pngs}, expected {want}", ctx)
            if do_save and pngs == want:
                job.expect(os.path.getsize(pngs[0]) > 1000, "saved-file", "the saved picture is empty", ctx)
            job.count("fields." + kind)
            job.count("fields.stamp", var is None)
            job.count("fields.mean", mean)
            job.sample(ctx())
        with xr.open_dataset(path) as again:
            job.expect(again.identical(d) or all(np.array_equal(again[k].values, d[k].values, equal_nan=d[k].dtype.kind == "f") for k in d.variables),
                       "file-changed", "plotting changed the output file", {"file": how})
        plt.close("all")


# ------------------------------------------------------------ profile plots
def layers(d, t, y, x, wrf=False):
    c = d.isel(time=t, **({"south_north": y, "west_east": x} if wrf else {"lat": y, "lon": x}))
    n = int(np.isfinite(c.LAYER_HEIGHT.values).sum())
    g = lambda k: c[k].values[:n].astype(float)
    return g("LAYER_HEIGHT"), g("LAYER_RHO"), g("LAYER_T"), c


def step_at(line, depth):
    """Value the drawn step line has at a depth (strictly inside a segment)."""
    p = line.get_path().vertices if line.get_drawstyle() == "default" else drawn(line)
    out = []
    for (x0, y0), (x1, y1) in zip(p[:-1], p[1:]):
        if min(y0, y1) < depth < max(y0, y1):
            out.append(x0 + (x1 - x0) * (depth - y0) / (y1 - y0))
    return out


def drawn(line):
    import matplotlib.cbook as cbook

    style = line.get_drawstyle()
    if style == "steps":
        style = "steps-pre"
    x, y = line.get_xdata(), line.get_ydata()
    return np.column_stack(cbook.STEP_LOOKUP_MAP[style](np.asarray(x, float), np.asarray(y, float)))


def judge_profile(job, rec, d, t, y, x, ctx, wrf=False, temperature=True):
    h, rho, T, c = layers(d, t, y, x, wrf)
    edges = np.concatenate([[0.0], np.cumsum(h)])
    st = rec.of("step")
    if not job.expect(bool(st), "profile", "no density profile drawn", ctx):
        return
    line = st[-1]["out"][0]
    for k in range(len(h)):
        for f in (0.3, 0.8):
            z = edges[k] + f * h[k]
            v = step_at(line, z)
            if not job.expect(len(v) == 1 and ref.close(v[0], rho[k], 1e-9, 1e-9), "profile:density",
                              lambda: f"at depth {z!r} (layer {k}) the profile shows {v}, stored density {rho[k]!r}", ctx):
                return
    if temperature:
        steps = [l for c in st for l in c["out"]]
        pts = {(round(float(a), 9), round(float(b), 9)) for cc in rec.of("plot") for l in cc["out"] if l not in steps for a, b in zip(l.get_xdata(), l.get_ydata())
               if np.isfinite(a) and np.isfinite(b)}
        ok = all(any(abs(a - T[k]) < 1e-6 and edges[k] - 1e-6 <= b <= edges[k + 1] + 1e-6 for a, b in pts) for k in range(len(h)))
        ok2 = all(any(abs(a - T[k]) < 1e-6 and edges[k] - 1e-6 <= b <= edges[k + 1] + 1e-6 for k in range(len(h))) for a, b in pts)
        job.expect(ok and ok2, "profile:temperature", "temperatures drawn are not those of the layers at their depths", ctx)
        labels = {a.get_xlabel() for a in rec.fig.axes} | {a.get_ylabel() for a in rec.fig.axes}
        for u in ("Depth [m]", "Density [kg m^-3]", "Temperature [K]"):
            job.expect(u in labels, "profile:labels", lambda: f"no axis is labelled {u!r}: {labels}", ctx)
    job.expect(rec.fig.axes[0].yaxis_inverted(), "profile:axis", "depth does not increase downwards", ctx)


def run_tool(tool):
    """plot_profiles has no main(): run the script's own command line."""
    import runpy

    return lambda: runpy.run_path(tool.__file__, run_name="__main__")


def profiles(job):
    from cosipy.postprocessing.profile_plots import plot_profiles as tool
    import matplotlib.pyplot as plt

    rng = job.rng
    stream, wstream = variants(job), None
    n = 0
    while job.time_left() > 0 or n < 3:
        n += 1
        d, how = next(stream)
        point = n % 4 == 2
        if point:
            ys, xs = np.nonzero(np.isfinite(d.TS.values[0]))
            k = int(rng.integers(len(ys)))
            d = d.isel(lat=slice(ys[k], ys[k] + 1), lon=slice(xs[k], xs[k] + 1))
        path = save(job, d)
        ys, xs = np.nonzero(np.isfinite(d.TS.values[0]))
        nt = d.sizes["time"]
        for rep in range(4):
            k = int(rng.integers(len(ys)))
            y, x, t = int(ys[k]), int(xs[k]), int(rng.integers(nt))
            la, lo = float(d.lat.values[y]), float(d.lon.values[x])
            dla = 0.3 * abs(np.diff(d.lat.values)).min() if not point else 0.001
            dlo = 0.3 * abs(np.diff(d.lon.values)).min() if not point else 0.001
            where = ["-n", repr(float(la + rng.uniform(-1, 1) * dla)), "-m", repr(float(lo + rng.uniform(-1, 1) * dlo))]
            if point and rng.random() < 0.6:
                where = []
            plt.close("all")
            # --- one profile
            h, rho, T, c = layers(d, t, y, x)
            edges = np.concatenate([[0.0], np.cumsum(h)])
            depths = sorted(float(v) for v in rng.uniform(0, edges[-1] * 0.9, 3)) if rng.random() < 0.6 else []
            args = ["-f", path, "-d", stampstr(rng, d.time.values[t]), *where]
            if depths:
                args += ["--depth", *[repr(v) for v in depths]]
            rec = Recorder()
            out, exc = command(job, run_tool(tool), args, rec)
            ctx = lambda: {"args": args, "file": how, "cell": (y, x), "step": t, "exception": repr(exc)}
            job.count("profiles")
            if exc is not None:
                job.violation("profile:raised", f"plotting raised {exc!r} {out[-300:]}", ctx())
            else:
                judge_profile(job, rec, d, t, y, x, ctx)
                vals = dict(re.findall(r"(T2|RH|U|G): (-?[\d.]+)", out))
                exp = {k: "%.2f" % float(c[v]) for k, v in (("T2", "T2"), ("RH", "RH2"), ("U", "U2"), ("G", "G"))}
                job.expect(all(vals.get(k) == v for k, v in exp.items()), "profile:weather", lambda: f"printed weather {vals}, stored {exp}", ctx)
                got = re.findall(r"nearest depth: ([\d.]+) \t density: ([\d.]+) \t T: ([\d.]+)", out)
                job.expect(len(got) == len(depths), "profile:depths", lambda: f"{len(got)} depths printed for {len(depths)}", ctx)
                for z, g in zip(depths, got):
                    job.count("profiles.depths")
                    i = int(np.argmin(abs(edges - z)))
                    near = [q for q in (i - 1, i) if 0 <= q < len(h)]
                    job.expect(g[0] == "%.3f" % edges[i] and any(g[1:] == ("%.2f" % rho[q], "%.2f" % T[q]) for q in near), "profile:depths",
                               lambda: f"depth {z!r}: printed {g}, layers at the boundary {edges[i]!r} hold {[(rho[q], T[q]) for q in near]}", ctx)
                job.evaluated(2 * len(h) + 4, ("profile", how, y, x, t))
            job.sample(ctx())
            # --- time series of the profile
            if rep < 2:
                series(job, tool, d, path, how, y, x, where, plt)
        if n % 2 == 0:
            wstream = wstream or variants(job, True)
            w, how = next(wstream)
            p = save(job, w)
            ys, xs = np.nonzero(np.isfinite(w.TS.values[0]))
            k, t = int(rng.integers(len(ys))), int(rng.integers(w.sizes["time"]))
            y, x = int(ys[k]), int(xs[k])
            rec = Recorder()
            plt.close("all")
            a = (p, stampstr(rng, w.time.values[t]), float(w.lat.values[y, x]) + 0.004, float(w.lon.values[y, x]) - 0.004)
            out, exc = command(job, lambda: tool.plot_profile(*a), [], rec)
            ctx = lambda: {"plot_profile": a, "cell": (y, x), "exception": repr(exc)}
            job.count("profiles.wrf")
            if exc is not None:
                job.violation("profile:raised", f"plotting raised {exc!r}", ctx())
            else:
                judge_profile(job, rec, w, t, y, x, ctx, True, False)
                job.evaluated(5, ("wrf", how, y, x, t))
        plt.close("all")


def series(job, tool, d, path, how, y, x, where, plt):
    rng = job.rng
    var = str(rng.choice(list(SERIES)))
    nt = d.sizes["time"]
    a, b = 0, nt - 1
    args = ["-f", path, "-v", var, *where]
    if rng.random() < 0.6:
        a = int(rng.integers(0, nt - 8))
        b = int(rng.integers(a + 3, nt))
        b = min(b, nt - 1)
        args += ["-s", pd.Timestamp(d.time.values[a]).strftime("%Y-%m-%dT%H:%M:%S"), "-e", pd.Timestamp(d.time.values[b]).strftime("%Y-%m-%dT%H:%M:%S")]
        job.count("series.period")
    stakes = rng.random() < 0.4
    sub = d.isel(time=slice(a, b + 1), lat=y, lon=x)
    if stakes:
        rows = sorted(set(int(v) for v in rng.integers(1, b - a + 1, 4)))
        vals = [round(float(v), 3) for v in rng.uniform(0.1, 1.5, len(rows))]
        if len(rows) > 1:
            vals[-1] = -9999
        times = [pd.Timestamp(sub.time.values[r]) for r in rows]
        dt = times[0] - pd.Timestamp(sub.time.values[rows[0] - 1])
        # measured on dates that are not among the simulated steps: before, after, in between
        for q, off in ((rows[0], -0.5), (rows[-1], 0.37), (0, -30), (b - a, 45)):
            if rng.random() < 0.6:
                times.append(pd.Timestamp(sub.time.values[q]) + off * dt)
                vals.append(round(float(rng.uniform(0.1, 1.5)), 3))
                job.count("series.stakes.elsewhen")
        table = sorted(zip([t.strftime("%Y-%m-%d %H:%M:%S") for t in times], vals))
        with open("stakes.csv", "w") as f:
            f.write("TIMESTAMP\tpit1\tpit2\n" + "".join(f"{t}\t{v}\t7.5\n" for t, v in table))
        args += ["--stake-file", "stakes.csv", "--pit", "pit1"]
    plt.close("all")
    rec = Recorder()
    out, exc = command(job, run_tool(tool), args, rec)
    ctx = lambda: {"args": args, "file": how, "cell": (y, x), "period": (a, b), "exception": repr(exc)}
    job.count("series")
    if exc is not None:
        job.violation("series:raised", f"plotting raised {exc!r} {out[-300:]}", ctx())
        return
    calls = [c for c in rec.of("pcolormesh") if len(c["args"]) >= 3]
    calls = [c for c in calls if c["ax"].get_title()]           # not the one the colour bar draws
    if not job.expect(len(calls) == 1, "series", f"{len(calls)} meshes drawn", ctx):
        return
    X, Y, Z = shown(calls[0], "mesh")
    if not job.expect(Z.shape[1] == b - a + 1 and np.allclose(X[0], np.arange(b - a + 1)), "series:time",
                      lambda: f"{Z.shape[1]} time steps drawn, {b - a + 1} selected", ctx):
        return
    key, label = SERIES[var]
    ax = calls[0]["ax"]
    for i in range(b - a + 1):
        c = sub.isel(time=i)
        n = int(np.isfinite(c.LAYER_HEIGHT.values).sum())
        h = c.LAYER_HEIGHT.values[:n]
        cum = np.cumsum(h)
        val = cum if key is None else c[key].values[:n]
        top = float(c.SNOWHEIGHT)
        bottom = top - cum
        for j in range(0, Z.shape[0], max(1, Z.shape[0] // 25)):
            z, got = Y[j, i], Z[j, i]
            if z >= top:
                ok = np.isnan(got) or abs(z - top) < 1e-9
                job.expect(ok, "series:above", lambda: f"step {i}: value {got!r} shown {z!r} m above the ice, snow is {top!r} m deep", ctx)
                continue
            if abs(z - top) < 1e-9:
                continue
            inside = int(np.argmax(bottom <= z + 1e-12))
            near = np.flatnonzero(abs(bottom - z) <= abs(bottom - z).min() + 1e-9)
            cand = sorted({inside, *map(int, near)})
            if not job.expect(any(ref.close(got, val[q], 1e-9, 1e-12) or (np.isnan(got) and np.isnan(val[q])) for q in cand), "series:value",
                              lambda: f"step {i}, height {z!r}: {var} shown {got!r}, layer {inside} holds {val[inside]!r}", ctx):
                return
    job.expect(ax.get_title() == f"{var}-Profile", "series:title", lambda: f"title {ax.get_title()!r}", ctx)
    cb = calls[0]["out"].colorbar
    job.expect(cb is not None and cb.ax.get_ylabel() == label, "series:units",
               lambda: f"colour bar labelled {cb.ax.get_ylabel() if cb else None!r}, expected {label!r}", ctx)
    got = {int(round(tk)): lb.get_text() for tk, lb in zip(ax.get_xticks(), ax.get_xticklabels())}
    times = pd.DatetimeIndex(sub.time.values)
    for k, lb in got.items():
        ok = 0 <= k < len(times) and (times[k].strftime("%Y-%m-%d") == lb or
                                      (k > 0 and times[k - 1] < pd.Timestamp(lb) + (times[0] - times[0].normalize()) <= times[k]))
        job.expect(ok, "series:dates", lambda: f"tick {k} is labelled {lb!r}, the step is {times[k] if 0 <= k < len(times) else None}", ctx)
    job.count("series.ticks", len(got))
    if stakes:
        pts = sorted((float(p[0]), float(p[1])) for cc in rec.of("scatter") for p in np.asarray(cc["out"].get_offsets()))
        want = sorted((float(r), v) for r, v in zip(rows, vals) if v != -9999)
        job.expect(len(pts) == len(want) and np.allclose(pts, want), "series:stakes", lambda: f"pit measurements drawn at {pts}, expected {want}", ctx)
        job.count("series.stakes")
    job.evaluated(Z.size // max(1, Z.shape[0] // 25), ("series", var, how, y, x, a, b))


# --------------------------------------------------------------------- vtk
def vtk(job):
    import cosipy.postprocessing.vtk_plots.plot_cosipy_fields_vtk as tool
    from vtk import vtkXMLUnstructuredGridReader
    from vtk.util.numpy_support import vtk_to_numpy

    rng = job.rng
    drawn_ = []
    tool.plotSurface = lambda *a, **k: drawn_.append((a, k))     # rendering needs a display; the exported file is judged

    def load():
        r = vtkXMLUnstructuredGridReader()
        r.SetFileName("cosipy.vtu")
        r.Update()
        g = r.GetOutput()
        arr = {g.GetPointData().GetArrayName(i): vtk_to_numpy(g.GetPointData().GetArray(i)).copy()
               for i in range(g.GetPointData().GetNumberOfArrays())}
        return vtk_to_numpy(g.GetPoints().GetData()).astype(float).copy(), arr

    stream = variants(job)
    n = 0
    while job.time_left() > 0 or n < 3:
        n += 1
        d, how = next(stream)
        path = save(job, d)
        lon, lat = np.meshgrid(d.lon.values, d.lat.values)
        alt = d.HGT.values / 6370000.0
        tol = 2e-5
        for rep in range(4):
            t = d.time.values[int(rng.integers(d.sizes["time"]))]
            mean = bool(rng.random() < 0.4)
            names = [v for v in d.data_vars if d[v].dims[0] == "time" and d[v].ndim == 3]
            var = str(rng.choice(names))
            date = stampstr(rng, t) if not mean or rng.random() < 0.5 else str(t.astype("datetime64[D]"))
            args = [str(rng.choice(["-i", "--input"])), path, str(rng.choice(["-n", "--name"])), var, str(rng.choice(["-t", "--time"])), date]
            args += ["-m"] if mean else []
            args += ["-g"] if rng.random() < 0.3 else []
            if os.path.exists("cosipy.vtu"):
                os.unlink("cosipy.vtu")
            drawn_.clear()
            out, exc = command(job, tool.main, args, Recorder())
            ctx = lambda: {"args": args, "file": how, "shape": d.TS.shape, "exception": repr(exc)}
            if exc is not None:
                job.violation("vtk:raised", f"export raised {exc!r}", ctx())
                continue
            pts, arr = load()
            job.count("dem")
            job.count("scalars")
            job.count("scalars.mean", mean)
            ok = len(pts) == lon.size
            idx = []
            for a, b, z in zip(lon.ravel(), lat.ravel(), alt.ravel()):
                j = int(np.argmin((pts[:, 0] - a) ** 2 + (pts[:, 1] - b) ** 2))
                idx.append(j)
                ok = ok and abs(pts[j] - [a, b, z]).max() < tol
            if not job.expect(ok, "dem", "the surface does not have one point per cell at its longitude, latitude and elevation", ctx):
                continue
            want = day_mean(d[var], t) if mean else d[var].sel(time=t).values
            if not job.expect(var in arr, "scalar", lambda: f"the exported surface carries {sorted(arr)}, not {var}", ctx):
                continue
            got = arr[var][idx].reshape(want.shape)
            same = np.isclose(got, want, rtol=1e-6, atol=1e-9, equal_nan=True)
            job.expect(bool(same.all()), "scalar:" + ("mean" if mean else "step"),
                       lambda: f"{var}: exported {got[~same][:3]}, stored {want[~same][:3]}", ctx)
            if drawn_:
                a, k = drawn_[-1]
                vals = list(a) + list(k.values())
                job.expect(var in vals, "vtk:variable", "another variable is drawn", ctx)
            job.evaluated(2 * want.size, ("vtk", how, var, mean, n, rep))
            job.sample(ctx())
        thin = save(job, d.isel(lon=slice(0, 1)))
        out, exc = command(job, tool.main, ["-i", thin, "-n", "TS", "-t", str(d.time.values[0])], Recorder())
        job.expect(isinstance(exc, ValueError), "vtk:refuse", "a file without a two-dimensional domain was not refused", {"exception": repr(exc)})
        job.count("vtk.refused")
