"""C01 restart continuity through real files."""
import numpy as np
import pandas as pd

from checks.common import VARIANTS
from harness import e2e, gen, ref, trace

RULE = ("random domains and weather run (a) in one go and (b) stopped at random steps and resumed from the restart file, "
        "one to three times in a row, through main() and real files; every later output and the final restart file "
        "compared bitwise, and each restart file compared with the reported column at that step. Distinct by case and split.")
REQUIRED = {"cases": 6, "resumes": 12, "restart_cells": 30, "wrf": 1, "chains": 3, "tiles": 1,
            "cell_cases": 9, "cell_resumes": 30, "aged_splits": 5}
NAMES = ["default", "adaptive-loose", "MO", "bougamont", "physics", "dt900", "dt3h", "tuned", "newton"]
CELL = ("NLAYERS", "NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP")


def jobs(tier, seed):
    out = []
    for c in range(1 if tier == "quick" else 3):
        for i, v in enumerate(NAMES):
            out.append(dict(name=f"split-{v}-{c}", func="split", constants=VARIANTS[v], budget_s=14 if tier == "quick" else 120,
                            timeout_s=300 if tier == "quick" else 600, params=dict(variant=v)))
        for v in ("default", "adaptive-loose", "tuned"):
            out.append(dict(name=f"cells-{v}-{c}", func="cells", mode="interp", constants=VARIANTS[v],
                            config={"FULL_FIELDS": {"full_field": True}}, budget_s=10 if tier == "quick" else 90,
                            timeout_s=300 if tier == "quick" else 600, params=dict(variant=v)))
    return out


def cells(job):
    """One cell, split at several steps, without files: everything the column model reports afterwards."""
    rng, n = job.rng, 0
    while job.time_left() > 0 or n < 3:
        n += 1
        nt = int(rng.integers(8, 50))
        ds, info = trace.random_case(job, nt, flavour="flurries" if n % 2 else None)
        full = trace.run(ds)
        job.count("cell_cases")
        for k in sorted(set(int(x) for x in rng.integers(0, nt - 1, 4))):
            head = trace.run(ds.isel(time=slice(0, k + 1)))
            rs = head["RESTART"]
            ctx = lambda: {"case": info, "split": k}
            for a, b in zip(CELL[1:], ("NEWH", "NEWT", "OLDT")):
                job.expect(float(rs[a].values.item()) == float(full[b][k]), "restart:" + a,
                           lambda: f"{a} in the restart data is {rs[a].values.item()!r}, the column had {full[b][k]!r}", ctx)
            tail = trace.run(ds.isel(time=slice(k + 1, None)), restart=rs)
            job.count("cell_resumes")
            bad = [m for m in trace.NAMES if isinstance(full[m], np.ndarray) and full[m].dtype.kind == "f"
                   and full[m].ndim and not equal(np.asarray(tail[m], float), np.asarray(full[m][k + 1:], float))]
            job.expect(not bad, "resumed-cell", f"after the restart {bad[:8]} differ from the uninterrupted run", ctx)
            job.count("aged_splits", full["OLDT"][k] not in (0.0, full["NEWT"][k]))
            job.evaluated(4, (info["start"], info["flavour"], k))


def stamp(t):
    return str(np.datetime64(t, "m"))


def equal(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def diff_ds(a, b, skip=()):
    bad = []
    for n in sorted(set(a.variables) | set(b.variables)):
        if n in skip:
            continue
        if n not in a.variables or n not in b.variables:
            bad.append(f"{n} missing")
        elif a[n].dims != b[n].dims or not equal(a[n].values, b[n].values):
            bad.append(n)
    return bad


def make(job, nt, wrf, my=3, mx=2, **kw):
    rng = job.rng
    ny, nx = int(rng.integers(1, my + 1)), int(rng.integers(1, mx + 1))
    mask = (rng.random((ny, nx)) < 0.75).astype(float)
    mask[int(rng.integers(ny)), int(rng.integers(nx))] = 1
    var = trace.FORCING_SETS[int(rng.integers(len(trace.FORCING_SETS)))]
    fl = list(rng.permutation(["cold", "mixed", "melt", "rain", "hostile", "winter"])[: ny * nx])
    kw.setdefault("snowheight", rng.uniform(0, 1.5, (ny, nx)) * (rng.random((ny, nx)) < 0.8))
    start = f"2010-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 28)):02d}T{int(rng.integers(24)):02d}:00"
    return gen.forcing(rng, nt, ny, nx, job.C["dt"], start=start, variables=var, wrf=wrf, mask=mask,
                       flavours=[str(f) for f in fl], **kw)


def check_restart(job, rs, result, t, mask, ctx):
    """The restart file holds the column reported at that step."""
    ny, nx = mask.shape
    job.expect(np.datetime64(rs.time.values) == np.datetime64(result.time.values[t]), "restart:time",
               lambda: f"restart file is for {rs.time.values}, run ended at {result.time.values[t]}", ctx)
    for y in range(ny):
        for x in range(nx):
            job.count("restart_cells")
            n = rs["NLAYERS"].values[y, x]
            if mask[y, x] != 1:
                job.expect(np.isnan(n), "restart:outside", "restart state for a cell outside the mask", ctx)
                continue
            n = int(n)
            job.expect(n == int(result["LAYERS"].values[t, y, x]), "restart:layers", "number of layers in the restart file", ctx)
            for a, b in (("LAYER_HEIGHT", "LAYER_HEIGHT"), ("LAYER_RHO", "LAYER_RHO"), ("LAYER_T", "LAYER_T"),
                         ("LAYER_LWC", "LAYER_LWC"), ("LAYER_IF", "LAYER_ICE_FRACTION")):
                job.expect(equal(rs[a].values[y, x], result[b].values[t, y, x]), "restart:" + a,
                           f"{a} in the restart file is not the column reported at the last step", ctx)


def memory_only(job, ds, result, rs, k, mask):
    """The resumed run is what the documented model gives from the saved column
    with only the albedo memory (snow albedo, surface temperature) reset."""
    for y, x in zip(*np.nonzero(mask == 1)):
        c, r, res = gen.cell(ds, y, x), gen.cell(rs, y, x), gen.cell(result, y, x)
        n = int(r.NLAYERS)
        s = ref.col(*(r[v].values[:n] for v in ("LAYER_HEIGHT", "LAYER_T", "LAYER_LWC", "LAYER_IF")),
                    tuple(float(r[v]) for v in CELL[1:]))
        m = dict(a_snow=job.C["albedo_fresh_snow"], Ts=270.0)
        exp, *_ = trace.step(s, m, c, k + 1, float(res.TS.values[0]), job.C, job.cfg)
        if not all(ref.close(float(res[v].values[0]), exp[v], 1e-8, 1e-10) for v in ("ALBEDO", "MB", "Q", "TOTALHEIGHT", "H")):
            return False
    return True


def split(job):
    rng = job.rng
    boug = job.C["albedo_method"] == "Bougamont05"
    n = 0
    while job.time_left() > 0 or n < 2:
        wrf = n % 3 == 2
        n += 1
        nt = int(rng.integers(10, 40))
        ds = make(job, nt, wrf)
        mask = ds.MASK.values
        t = ds.time.values
        base = {"SIMULATION_PERIOD": {"time_start": stamp(t[0]), "time_end": stamp(t[-1])},
                "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"},
                "DIMENSIONS": {"WRF": wrf}, "FULL_FIELDS": {"full_field": True},
                "RESTART": {"restart": False}}
        if rng.random() < 0.3:
            y0, x0 = (int(rng.integers(0, k)) for k in mask.shape)
            y1, x1 = (int(rng.integers(a + 1, k + 1)) for a, k in zip((y0, x0), mask.shape))
            if (mask[y0:y1, x0:x1] == 1).any():
                base["SUBSET"] = dict(tile=True, ystart=y0, yend=y1, xstart=x0, xend=x1)
                mask = mask[y0:y1, x0:x1]
                d = dict(south_north=slice(y0, y1), west_east=slice(x0, x1)) if wrf else dict(lat=slice(y0, y1), lon=slice(x0, x1))
                sub = ds.isel(d)
                job.count("tiles")
        if "SUBSET" not in base:
            sub = ds
        full = e2e.ok(job, e2e.run_main(job, base, input_ds=ds))
        job.count("cases")
        job.count("wrf", wrf)
        cuts = sorted(set(int(x) for x in rng.integers(0, nt - 1, int(rng.integers(1, 4)))) |
                      ({nt - 2} if rng.random() < 0.25 else set()) | ({0} if rng.random() < 0.15 else set()))
        job.count("chains", len(cuts) > 1)
        ctx = lambda: {"start": stamp(t[0]), "steps": nt, "cuts": cuts, "shape": mask.shape, "wrf": wrf,
                       "forcing": sorted(ds.data_vars)}
        check_restart(job, full.restart, full.result, nt - 1, mask, ctx)
        prev = None
        for j, k in enumerate(cuts + [nt - 1]):
            cfg = {s: dict(v) for s, v in base.items()}
            cfg["SIMULATION_PERIOD"]["time_end"] = stamp(t[k])
            if prev is not None:
                cfg["SIMULATION_PERIOD"]["time_start"] = stamp(t[prev])
                cfg["RESTART"]["restart"] = True
            o = e2e.ok(job, e2e.run_main(job, cfg))
            lo = 0 if prev is None else prev + 1
            job.expect(equal(o.result.time.values, t[lo:k + 1]), "period",
                       lambda: f"run covers {o.result.time.values[[0, -1]]}, expected {t[lo]} .. {t[k]}", ctx)
            want = full.result.isel(time=slice(lo, k + 1))
            bad = diff_ds(o.result, want) if len(o.result.time) == k + 1 - lo else ["time"]
            if prev is not None and bad and boug and "time" not in bad and memory_only(job, sub, o.result, before, prev, mask):
                job.violation("bougamont-albedo-memory", f"after the restart {bad[:6]} differ", ctx())
                break
            job.expect(not bad, "resumed" if prev is not None else "stopped",
                       f"{'after the restart' if prev is not None else 'before the stop'} {bad[:8]} differ from the uninterrupted run", ctx)
            check_restart(job, o.restart, full.result, k, mask, ctx) if not bad else None
            if k == nt - 1 and not bad:
                b2 = diff_ds(o.restart, full.restart)
                job.expect(not b2, "final-restart", f"final restart file differs in {b2[:6]}", ctx)
            job.count("resumes", prev is not None)
            job.evaluated(len(want.data_vars) + 1, (stamp(t[0]), wrf, tuple(cuts), k))
            prev, before = k, o.restart
        job.sample(ctx())
        for p in list(e2e.datadir(job).rglob("*.nc")):
            p.unlink()
