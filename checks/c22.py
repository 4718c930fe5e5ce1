"""C22 bad input is refused or reported (fault injection)."""
import contextlib
import hashlib
import io
import re

import numpy as np

from checks.c01 import diff_ds, make, stamp
from checks.common import VARIANTS
from harness import e2e, tomlw

RULE = ("fault injection into end-to-end runs: missing values in every variable, step and cell (inside/outside mask, period, tile; "
        "cold and restarted; both layouts), missing files, empty periods, failing cells, columns outgrowing the layer "
        "limit; exit status, files written and untouched observed.  Values placed on and around every range bound; the "
        "report compared with the bounds.  Distinct by fault.")
REQUIRED = {"nan_inside": 25, "nan_outside": 12, "nan_restart": 5, "missing_files": 6, "no_new_data": 6, "failing_cells": 6,
            "layer_limit": 4, "within_limit": 4, "ranges": 200, "out_of_range": 60, "wrf": 5, "untouched": 30}
BOUNDS = {"T2": (243.16, 313.16), "RH2": (0, 100), "G": (0, 1600), "U2": (0, 50), "RRR": (0, 20), "N": (0, 1),
          "PRES": (400, 1080), "LWin": (200, 400), "SNOWFALL": (0, 0.1), "SLOPE": (0, 90)}


def jobs(tier, seed):
    q = tier == "quick"
    k = dict(budget_s=20 if q else 150, timeout_s=600)
    out = []
    for c in range(1 if q else 3):
        out += [dict(name=f"nan-{v}-{c}", func="nan", constants=VARIANTS[v], **k) for v in ("default", "dt3h", "MO")]
        out += [dict(name=f"files-{c}", func="files", constants={}, **k), dict(name=f"ranges-{c}", func="ranges", constants={}, **k),
                dict(name=f"layers-{c}", func="layers", constants={"initial_glacier_height": 10.0}, **k)]
    return out


def base(ds, wrf, a, b, **kw):
    return {"SIMULATION_PERIOD": {"time_start": stamp(a), "time_end": stamp(b)},
            "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"}, "DIMENSIONS": {"WRF": wrf},
            "FULL_FIELDS": {"full_field": False}, "RESTART": {"restart": False}, "SUBSET": {"tile": False}, **kw}


def hashes(job):
    return {p: hashlib.sha1(p.read_bytes()).hexdigest() for p in e2e.datadir(job).rglob("*") if p.is_file() and p.parent.name != "input"}


def refused(job, cfg, ds, what, ctx, system_exit=True):
    if ds is not None:
        e2e.write_input(job, ds)
    before = hashes(job)
    o = e2e.run_main(job, cfg)
    job.expect(o.exc is not None, f"{what}:accepted", f"{what}: the run completed", ctx)
    if system_exit:
        job.expect(isinstance(o.exc, SystemExit) and o.exc.code not in (None, 0), f"{what}:exit",
                   lambda: f"{what}: ended with {o.exc!r} instead of an error message", ctx)
    job.expect(hashes(job) == before, f"{what}:wrote", lambda: f"{what}: files changed {[p.name for p in o.new]}", ctx)
    job.count("untouched", len(before))
    job.evaluated(3)
    return o


def clean(job):
    for p in list(e2e.datadir(job).rglob("*.nc")):
        p.unlink()


def poke(ds, v, idx, val):
    d = ds.copy(deep=True)
    a = d[v].values.copy()
    a[idx] = val
    d[v] = (d[v].dims, a, d[v].attrs)
    return d


def nan(job):
    rng = job.rng
    n = 0
    while job.time_left() > 0 or n < 3:
        wrf = n % 2 == 1
        n += 1
        nt = int(rng.integers(4, 10))
        ds = make(job, nt, wrf, 4, 4)
        ny, nx = ds.MASK.shape
        if rng.random() < 0.5:
            ds["MASK"] = ds.MASK.where(ds.MASK == 1)
        mask = ds.MASK.values
        t = ds.time.values
        job.count("wrf", wrf)
        i0, i1 = 1, nt - 2
        cfg = base(ds, wrf, t[i0], t[i1])
        good = e2e.ok(job, e2e.run_main(job, cfg, input_ds=ds))
        cells = np.argwhere(mask == 1)
        vs = [v for v in ds.data_vars if v != "MASK"]
        for v in rng.permutation(vs)[:5]:
            v = str(v)
            y, x = (int(k) for k in cells[int(rng.choice([0, len(cells) - 1, rng.integers(len(cells))]))])
            k = int(rng.choice([i0, i1, rng.integers(i0, i1 + 1)]))
            idx = (k, y, x) if "time" in ds[v].dims else (y, x)
            ctx = lambda: {"variable": v, "index": idx, "steps": nt, "period": (i0, i1), "mask": mask, "wrf": wrf}
            refused(job, cfg, poke(ds, v, idx, np.nan), "missing value", ctx)
            job.count("nan_inside")
            job.evaluated(0, (v, idx, stamp(t[0]), wrf))
        # harmless places
        out = np.argwhere(mask != 1)
        bad = ds
        what = []
        for v in vs:
            if len(out) and rng.random() < 0.6:
                for y, x in out[: int(rng.integers(1, len(out) + 1))]:
                    bad = poke(bad, v, (slice(None), y, x) if "time" in ds[v].dims and rng.random() < 0.5 else
                               ((int(rng.integers(nt)), y, x) if "time" in ds[v].dims else (y, x)), np.nan)
                what.append(v)
            elif "time" in ds[v].dims and rng.random() < 0.5:
                bad = poke(bad, v, int(rng.choice([0, nt - 1])), np.nan)
                what.append(v + "(t)")
        if what:
            ctx = lambda: {"variables": what, "mask": mask, "wrf": wrf}
            o = e2e.run_main(job, cfg, input_ds=bad)
            job.count("nan_outside")
            if job.expect(o.exc is None and o.result is not None, "harmless:refused",
                          lambda: f"missing values outside glacier/period stopped the run: {o.exc!r}", ctx):
                d = diff_ds(o.result, good.result, skip=set(ds.data_vars))
                job.expect(not d and not diff_ds(o.restart, good.restart), "harmless:changed",
                           f"missing values outside glacier/period changed {d[:6]}", ctx)
            job.evaluated(2, tuple(what))
        # outside the tile
        if len(cells) > 1 and ny * nx > 1:
            y, x = (int(k) for k in cells[0])
            y2, x2 = (int(k) for k in cells[-1])
            c2 = dict(cfg, SUBSET=dict(tile=True, ystart=y, yend=y + 1, xstart=x, xend=x + 1))
            o = e2e.run_main(job, c2, input_ds=poke(ds, "T2", (i0, y2, x2), np.nan))
            job.count("nan_outside")
            job.expect(o.exc is None and o.result is not None, "harmless:tile",
                       lambda: f"a missing value outside the tile stopped the run: {o.exc!r}", {"mask": mask})
            c3 = dict(cfg, SUBSET=dict(tile=True, ystart=y2, yend=y2 + 1, xstart=x2, xend=x2 + 1))
            refused(job, c3, None, "missing value in the tile", {"mask": mask})
        # the same for a continued run
        e2e.write_input(job, ds)
        c4 = base(ds, wrf, t[0], t[i0])
        e2e.ok(job, e2e.run_main(job, c4))
        c5 = base(ds, wrf, t[i0], t[i1], RESTART={"restart": True})
        y, x = (int(k) for k in cells[-1])
        refused(job, c5, poke(ds, "RH2", (i1, y, x), np.nan), "missing value after a restart", {"mask": mask})
        o = e2e.run_main(job, c5, input_ds=poke(ds, "RH2", (i0, y, x), np.nan))
        job.count("nan_restart")
        job.expect(o.exc is None and o.result is not None, "harmless:restart",
                   lambda: f"a missing value before the restart state stopped the run: {o.exc!r}", {"mask": mask})
        job.sample({"mask": mask, "steps": nt, "wrf": wrf, "outside": what})
        clean(job)


def files(job):
    rng = job.rng
    n = 0
    while job.time_left() > 0 or n < 6:
        wrf = n % 3 == 1
        n += 1
        nt = int(rng.integers(4, 9))
        ds = make(job, nt, wrf, 3, 3)
        t = ds.time.values
        cfg = base(ds, wrf, t[0], t[-2])
        ctx = lambda: {"steps": nt, "wrf": wrf, "start": stamp(t[0])}
        e2e.ok(job, e2e.run_main(job, cfg, input_ds=ds))     # something to protect
        job.count("wrf", wrf)
        job.count("missing_files", 3)
        job.count("no_new_data", 3)
        sig = (stamp(t[0]), nt, wrf)
        refused(job, dict(cfg, FILENAMES={"input_netcdf": "nowhere.nc", "output_prefix": "x"}), None, "missing input", ctx)
        refused(job, base(ds, wrf, t[0], t[-1], RESTART={"restart": True}), None, "missing restart file", ctx)
        refused(job, dict(base(ds, wrf, t[-2], t[-1], RESTART={"restart": True}), FILENAMES={"input_netcdf": "nowhere.nc", "output_prefix": "x"}),
                None, "missing input for a restart", ctx)
        r = base(ds, wrf, t[-2], t[-2], RESTART={"restart": True})
        refused(job, r, None, "start equals end", ctx)
        half = t[-2] + (t[-1] - t[-2]) // 2
        refused(job, base(ds, wrf, t[-2], half, RESTART={"restart": True}), None, "no step after the restart", ctx)
        refused(job, base(ds, wrf, t[-2], t[0], RESTART={"restart": True}), None, "end before the restart", ctx)
        # a cell whose computation fails (lost worker) must not end in a file without it
        e2e.install_fake_dask()
        k = {"left": int(rng.integers(0, int((ds.MASK.values == 1).sum())))}
        real = e2e.Scheduler.submit

        def submit(self, func, args, kwargs):
            f = real(self, func, args, kwargs)
            if k["left"] == 0:
                f._done, f._exc = True, RuntimeError("worker lost")
            k["left"] -= 1
            return f

        e2e.Scheduler.submit = submit
        try:
            o = refused(job, base(ds, wrf, t[0], t[-1]), None, "failing cell", ctx, system_exit=False)
        finally:
            e2e.Scheduler.submit = real
        job.count("failing_cells")
        job.evaluated(0, sig)
        job.sample(ctx())
        clean(job)


def layers(job):
    """The column outgrows the layer limit: an error, never a truncated profile."""
    import sys

    rng = job.rng
    n = 0
    conf = sys.argv[sys.argv.index("-x") + 1]
    while job.time_left() > 0 or n < 6:
        wrf = n % 3 == 1
        full = bool(rng.random() < 0.5)
        n += 1
        sh = float(rng.choice([0.0, 0.05, 0.3, 1.0, 2.5]))
        ds = make(job, int(rng.integers(3, 12)), wrf, 1, 2, snowheight=sh)
        t = ds.time.values
        cfg = base(ds, wrf, t[0], t[-1], FULL_FIELDS={"full_field": full})
        e2e.write_input(job, ds)
        tomlw.dump(tomlw.merge(job.con, {"max_layers": 400}), conf)
        free = e2e.ok(job, e2e.run_main(job, cfg)).result.LAYERS.values
        clean_out(job)
        limit = int(np.nanmax(free) + rng.integers(-4, 4))
        tomlw.dump(tomlw.merge(job.con, {"max_layers": limit}), conf)
        o = e2e.run_main(job, cfg)
        ctx = lambda: {"snowheight": sh, "full": full, "limit": limit, "layers without limit": free}
        job.evaluated(3, (sh, full, wrf, stamp(t[0]), limit))
        over = np.nanmax(free if full else free[-1]) > limit
        if not job.expect((o.exc is not None) == bool(over), "limit",
                          lambda: f"limit {limit}, {np.nanmax(free)} layers: run {'completed' if o.exc is None else 'failed'}", ctx):
            pass
        elif o.exc is None:
            job.count("within_limit")
            job.expect(np.array_equal(o.result.LAYERS.values, free, equal_nan=True), "truncated", "the limit changed the column", ctx)
            job.expect(np.array_equal(np.isfinite(o.restart.LAYER_HEIGHT.values).sum(-1), np.nan_to_num(o.restart.NLAYERS.values)),
                       "truncated-restart", "restart file holds fewer layers than the column", ctx)
        else:
            job.count("layer_limit")
            job.expect(not o.new, "wrote", "files were written although the run failed", ctx)
        job.sample(ctx())
        clean(job)


def clean_out(job):
    for p in list(e2e.datadir(job).rglob("*.nc")):
        if p.parent.name != "input":
            p.unlink()


def ranges(job):
    """Values on, just inside and just outside every bound."""
    rng = job.rng
    from cosipy.config import Config
    from cosipy.cpkernel.io import IOClass
    import sys

    n = 0
    while job.time_left() > 0 or n < 40:
        wrf = n % 3 == 1
        n += 1
        nt = int(rng.integers(2, 8))
        ds = make(job, nt, wrf, 3, 3)
        for v in BOUNDS:                                  # start from the middle
            if v in ds and rng.random() < 0.3:
                lo, hi = BOUNDS[v]
                ds[v] = ds[v] * 0 + 0.5 * (lo + hi)
        mask = ds.MASK.values
        t = ds.time.values
        want = {v: False for v in BOUNDS if v in ds}
        placed = []
        i0 = int(rng.integers(0, 2)) if nt > 2 else 0
        for v in want:
            if rng.random() < 0.55:
                continue
            lo, hi = BOUNDS[v]
            top = bool(rng.random() < 0.5)
            b = hi if top else lo
            step = max(abs(b), 1.0) * float(rng.choice([1e-9, 1e-4, 0.02, 3.0])) if v != "SNOWFALL" else float(rng.choice([1e-9, 1e-3, 1.0]))
            where = str(rng.choice(["out", "on", "in", "early"]))
            val = b if where == "on" else (b + step if top else b - step) if where in ("out", "early") else \
                (b - min(step, 0.3 * (hi - lo)) if top else b + min(step, 0.3 * (hi - lo)))
            y, x = (int(k) for k in rng.permutation(np.argwhere(mask == 1))[0])
            if "time" in ds[v].dims:
                if where == "early" and i0 == 0:
                    continue
                k = 0 if where == "early" else int(rng.integers(i0, nt))
                ds = poke(ds, v, (k, y, x), val)
                if rng.random() < 0.3 and (mask != 1).any():
                    yy, xx = (int(q) for q in np.argwhere(mask != 1)[0])
                    ds = poke(ds, v, (slice(None), yy, xx), np.nan)
            else:
                if where == "early":
                    continue
                ds = poke(ds, v, (y, x), val)
            want[v] = want[v] or where == "out"
            placed.append((v, where, val))
        e2e.write_input(job, ds)
        cfg = tomlw.merge(job.cfg, base(ds, wrf, t[i0], t[-1]))
        tomlw.dump(cfg, sys.argv[sys.argv.index("-c") + 1])
        Config()
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            IOClass().create_data_file()
        out = buf.getvalue()
        for v, bad in want.items():
            lo, hi = BOUNDS[v]
            told = re.search(rf"(?m)^{v} \.\.\. MAX", out) is not None
            okay = re.search(rf"(?m)^{v} \.\.\. ok", out) is not None
            job.count("ranges")
            job.count("out_of_range", bad)
            ctx = lambda: {"variable": v, "placed": placed, "bounds": BOUNDS[v], "message": out[-600:]}
            job.expect(told == bad and okay == (not bad), "range",
                       f"{v} {'outside' if bad else 'inside'} [{lo}, {hi}] was {'reported' if told else 'not reported'}", ctx)
        job.evaluated(len(want), tuple(placed))
        job.sample({"placed": placed, "reported": re.findall(r"(?m)^(\w+) \.\.\. MAX", out)})
    clean(job)
