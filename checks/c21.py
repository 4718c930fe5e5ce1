"""C21 selected period and tile."""
import pickle
import warnings

import numpy as np

from checks.c01 import diff_ds, equal, make, stamp
from checks.common import VARIANTS
from harness import e2e, gen, trace

RULE = ("end-to-end runs over input files with shuffled, gappy, reversed time axes and irregular or reversed coordinates, under random "
        "periods (inside, touching, overlapping, between steps, outside, inverted), tiles and restarts; the arguments of every "
        "column-model call and the output file are compared with the source fields, warnings and refusals with the "
        "period arithmetic.  Distinct by case and period.")
REQUIRED = {"cases": 20, "shuffled": 8, "gappy": 5, "tiles": 6, "wrf": 5, "overlap_start": 2, "overlap_end": 2,
            "refused": 4, "calls": 60, "restarts": 4, "cells_alone": 8}
NAMES = ["default", "dt900", "MO", "dt3h", "physics", "dt-day"]


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"period-{v}-{c}", func="period", constants=VARIANTS[v], budget_s=14 if q else 110, timeout_s=600,
                 params=dict(variant=v)) for c in range(1 if q else 3) for v in NAMES]


def call_args(future):
    args, kwargs = pickle.loads(future.payload)
    return args, kwargs


def period(job):
    rng = job.rng
    dt = np.timedelta64(job.C["dt"], "s")
    n = 0
    while job.time_left() > 0 or n < 4:
        wrf = n % 3 == 1
        n += 1
        nt = int(rng.integers(5, 26))
        ds = make(job, nt, wrf, 4, 4)
        ny, nx = ds.MASK.shape
        mask = ds.MASK.values
        # -- the file's axes
        if rng.random() < 0.35:
            keep = np.sort(rng.permutation(nt)[:max(4, int(nt * rng.uniform(0.4, 0.95)))])
            ds = ds.isel(time=keep)
            job.count("gappy", len(keep) < nt)
        if not wrf:
            if rng.random() < 0.4:
                ds = ds.assign_coords(lat=ds.lat.values[::-1].copy())
            if rng.random() < 0.4:
                ds = ds.assign_coords(lon=90 + np.cumsum(rng.uniform(0.01, 0.3, nx)))
        elif rng.random() < 0.3:                       # a file that numbers its rows and columns
            ds = ds.assign_coords(south_north=np.arange(ny), west_east=np.arange(nx))
            job.count("index_coordinates")
        src = ds.copy(deep=True)                      # in chronological order
        t = src.time.values
        shuffled = bool(rng.random() < 0.6)
        if shuffled:
            p = rng.permutation(len(t)) if rng.random() < 0.7 else np.arange(len(t))[::-1]
            ds = ds.isel(time=p)
        # -- the period
        kind = str(rng.choice(["inside", "all", "one", "before", "after", "around", "between", "gone-before", "gone-after",
                               "inverted"], p=[.3, .1, .06, .12, .12, .08, .07, .05, .05, .05]))
        i, j = sorted(int(x) for x in rng.integers(0, len(t), 2))
        minute = np.timedelta64(1, "m")
        off = lambda: minute * int(rng.integers(1, 60 * 40))
        a, b = t[i], t[j]
        jit = rng.random() < 0.4
        if kind == "all":
            a, b = t[0], t[-1]
        elif kind == "one":
            b = a
        elif kind == "before":
            a = t[0] - off()
        elif kind == "after":
            b = t[-1] + off()
        elif kind == "around":
            a, b = t[0] - off(), t[-1] + off()
        elif kind == "between":
            k = int(rng.integers(0, len(t) - 1))
            a, b = t[k] + minute, t[k + 1] - minute
        elif kind == "gone-before":
            b = t[0] - off()
            a = b - off()
        elif kind == "gone-after":
            a = t[-1] + off()
            b = a + off()
        elif kind == "inverted":
            a, b = t[-1], t[0]
        elif jit:                                      # bounds that are no time steps
            a, b = a - minute * int(rng.integers(0, 12)), b + minute * int(rng.integers(0, 12))
        exp = t[(t >= a) & (t <= b)]
        cfg = {"SIMULATION_PERIOD": {"time_start": stamp(a), "time_end": stamp(b)},
               "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"}, "DIMENSIONS": {"WRF": wrf},
               "FULL_FIELDS": {"full_field": False}, "RESTART": {"restart": False},
               "SUBSET": dict(tile=False, ystart=int(rng.integers(0, 9)), yend=int(rng.integers(0, 9)),
                              xstart=int(rng.integers(0, 9)), xend=int(rng.integers(0, 9)))}
        # -- the tile
        y0, y1, x0, x1 = 0, ny, 0, nx
        if rng.random() < 0.55:
            ty, tx = int(rng.integers(0, ny)), int(rng.integers(0, nx))
            uy, ux = int(rng.integers(ty + 1, ny + 2)), int(rng.integers(tx + 1, nx + 2))
            if (mask[ty:uy, tx:ux] == 1).any():
                y0, y1, x0, x1 = ty, uy, tx, ux
                cfg["SUBSET"] = dict(tile=True, ystart=ty, yend=uy, xstart=tx, xend=ux)
                job.count("tiles")
        tiled = cfg["SUBSET"]["tile"]
        sub = src.isel({ds.MASK.dims[0]: slice(y0, y1), ds.MASK.dims[1]: slice(x0, x1)})
        m = sub.MASK.values
        job.count("cases")
        job.count("wrf", wrf)
        job.count("shuffled", shuffled)
        ctx = lambda: {"file steps": [stamp(x) for x in ds.time.values], "period": (stamp(a), stamp(b)), "kind": kind,
                       "shape": (ny, nx), "wrf": wrf, "tile": cfg["SUBSET"]}
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o = e2e.run_main(job, cfg, input_ds=ds)
        said = " ".join(str(x.message) for x in w) + o.stdout
        job.evaluated(1, (kind, len(t), stamp(t[0]), stamp(a), stamp(b), tiled, wrf))
        if len(exp) == 0:
            job.count("refused")
            job.expect(o.exc is not None and not o.new, "not-refused",
                       f"a period without any input time step was accepted (wrote {[p.name for p in o.new]})", ctx)
            continue
        e2e.ok(job, o)
        R = o.result
        first, last = a < t[0], b > t[-1]
        job.count("overlap_start", first)
        job.count("overlap_end", last)
        job.expect(("startpoint" in said) == first, "warn-start",
                   f"warning about the start point {'missing' if first else 'without reason'}", ctx)
        job.expect(("endpoint" in said) == last, "warn-end",
                   f"warning about the end point {'missing' if last else 'without reason'}", ctx)
        judge(job, o, sub, exp, m, ctx)
        job.evaluated(len(o.sched.futures) * 8)
        # -- one cell against the column model alone
        gy, gx = [int(v) for v in rng.permutation(np.argwhere(m == 1))[0]]
        tr = trace.run(gen.cell(sub.sel(time=exp), gy, gx))
        job.count("cells_alone")
        bad = [v for v in ("MB", "Q", "TS", "H", "TOTALHEIGHT", "ALBEDO") if not equal(R[v].values[:, gy, gx], np.asarray(tr[v], float))]
        job.expect(not bad, "cell", lambda: f"{bad} at cell ({gy},{gx}) are not those of that cell's forcing in the period", ctx)
        # -- restart inside the same file: the period starts after the state
        if len(exp) > 2 and np.all(np.diff(exp) == dt) and rng.random() < 0.6:
            k = int(rng.integers(0, len(exp) - 1))
            cfg["SIMULATION_PERIOD"] = {"time_start": stamp(a), "time_end": stamp(exp[k])}
            e2e.ok(job, e2e.run_main(job, cfg))
            cfg["SIMULATION_PERIOD"] = {"time_start": stamp(exp[k]), "time_end": stamp(b)}
            cfg["RESTART"] = {"restart": True}
            o2 = e2e.ok(job, e2e.run_main(job, cfg))
            job.count("restarts")
            judge(job, o2, sub, exp[k + 1:], m, ctx)
            job.expect(not diff_ds(o2.result, R.sel(time=exp[k + 1:])), "restart", "the continued run differs from the whole run", ctx)
        job.sample(ctx())
        for p in list(e2e.datadir(job).rglob("*.nc")):
            p.unlink()


def judge(job, o, sub, exp, m, ctx):
    R = o.result
    want = sub.sel(time=exp)
    job.expect(equal(R.time.values, exp), "time", lambda: f"output covers {[stamp(x) for x in R.time.values]}, "
               f"period holds {[stamp(x) for x in exp]}", ctx)
    if not equal(R.time.values, exp):
        return
    job.expect(np.datetime64(o.restart.time.values) == exp[-1], "restart-time", "restart file is not for the last step of the period", ctx)
    job.expect(equal(R.lat.values, sub.lat.values) and equal(R.lon.values, sub.lon.values), "tile",
               lambda: f"output is on lat {R.lat.values.tolist()} lon {R.lon.values.tolist()}, tile is "
               f"{sub.lat.values.tolist()} {sub.lon.values.tolist()}", ctx)
    for v in sub.data_vars:
        if v in R and not (v in ("SNOWFALL", "LWin") or "time" not in sub[v].dims and v not in ("HGT", "MASK", "SLOPE", "ASPECT")):
            job.expect(equal(R[v].values, want[v].values), "forcing", f"{v} in the output is not that of its cell and time", ctx)
    # what the column model was given
    seen = []
    for f in o.sched.futures:
        args, kw = call_args(f)
        data, y, x = args[0], int(args[1]), int(args[2])
        seen.append((y, x))
        job.count("calls")
        c = gen.cell(want, y, x)
        bad = [v for v in c.variables if v not in data.variables or not equal(np.asarray(data[v].values), np.asarray(c[v].values))]
        job.expect(not bad, "call", lambda: f"the column model of cell ({y},{x}) was given other {bad} than that cell's", ctx)
    job.expect(sorted(seen) == sorted(map(tuple, np.argwhere(m == 1).tolist())), "cells",
               lambda: f"cells {sorted(seen)} were run, the mask holds {np.argwhere(m == 1).tolist()}", ctx)
