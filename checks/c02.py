"""C02 schedule independence, cell isolation, masking, placement."""
import socket

import numpy as np

from checks.c01 import diff_ds, equal, make, stamp
from checks.common import VARIANTS
from harness import e2e, gen, trace

RULE = ("random multi-cell domains (lat/lon and WRF layout, random masks, restarts) run through main() under controlled "
        "task schedules (submission order, reverse, random, eager) and once on a real local cluster; results compared "
        "bitwise between schedules and cell by cell with running the column model on that cell's forcing alone. "
        "Distinct by case and observed execution/completion order.")
REQUIRED = {"cases": 6, "schedules": 20, "cells_alone": 20, "masked_cells": 8, "wrf": 2, "restarted": 2,
            "distinct_orders": 12, "real_cluster_runs": 1, "large_domains": 4}
NAMES = ["default", "bougamont", "MO", "adaptive-loose", "physics", "tuned"]
SCAL = {"RAIN": "RAIN", "SNOWFALL": "SNOWFALL", "LAYERS": "NLAYERS"}


def jobs(tier, seed):
    out = []
    q = tier == "quick"
    for c in range(1 if q else 3):
        for v in NAMES:
            out.append(dict(name=f"sched-{v}-{c}", func="sched", constants=VARIANTS[v], budget_s=14 if q else 120,
                            timeout_s=300 if q else 600, params=dict(variant=v)))
    out.append(dict(name="large", func="large", budget_s=15 if q else 150, timeout_s=400 if q else 700, cost=5))
    out.append(dict(name="real-cluster", func="real", mode="jit", budget_s=60 if q else 200, timeout_s=600, cost=10))
    return out


def names_of(result):
    from cosipy.config import Config  # noqa: F401

    for n in result.data_vars:
        if n.startswith("LAYER_"):
            yield n, n
        elif n in SCAL:
            yield n, SCAL[n]
        elif n in trace.NAMES:
            yield n, n


def judge_cells(job, ds, result, ctx, cells=3, restart=None):
    """Masked cells are empty; other cells are the column model run alone."""
    mask = ds.MASK.values
    inputs = {"T2", "RH2", "U2", "G", "PRES", "RRR", "N", "HGT", "MASK", "SLOPE", "ASPECT"}
    outs = [n for n in names_of(result) if n[0] not in inputs]
    for y, x in zip(*np.nonzero(mask != 1)):
        job.count("masked_cells")
        bad = [n for n, _ in outs if not np.all(np.isnan(result[n].values[:, y, x]))]
        job.expect(not bad, "masked", f"cell outside the mask has results {bad[:5]}", ctx)
    run = list(zip(*np.nonzero(mask == 1)))
    for i in job.rng.permutation(len(run))[:cells]:
        y, x = run[i]
        c = gen.cell(ds, y, x)
        r = None if restart is None else gen.cell(restart, y, x)
        tr = trace.run(c, r)
        job.count("cells_alone")
        bad = []
        for n, k in outs:
            a = result[n].values[:, y, x]
            b = tr[k]
            if b is None or not equal(np.asarray(a, float), np.asarray(b, float)):
                bad.append(n)
        job.expect(not bad, "cell", f"cell ({y},{x}) differs from running it alone in {bad[:8]}", ctx)
        la = c.lat.item(), c.lon.item()
        lb = gen.cell(result, y, x)
        job.expect((lb.lat.item(), lb.lon.item()) == la, "coordinates", "cell stored at other coordinates", ctx)
        job.evaluated(len(outs) + 1)


def sched(job):
    rng = job.rng
    n, orders = 0, set()
    while job.time_left() > 0 or n < 2:
        wrf = n % 2 == 1
        n += 1
        nt = int(rng.integers(4, 16))
        ds = make(job, nt, wrf, 4, 4)
        t = ds.time.values
        restart = None
        base = {"SIMULATION_PERIOD": {"time_start": stamp(t[0]), "time_end": stamp(t[-1])},
                "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"},
                "DIMENSIONS": {"WRF": wrf}, "FULL_FIELDS": {"full_field": bool(rng.random() < 0.5)},
                "RESTART": {"restart": False}, "PARALLELIZATION": {"workers": int(rng.integers(0, 9))}}
        sub = ds
        if rng.random() < 0.5 and nt > 5:
            k = int(rng.integers(0, nt - 3))
            first = {s: dict(v) for s, v in base.items()}
            first["SIMULATION_PERIOD"]["time_end"] = stamp(t[k])
            restart = e2e.ok(job, e2e.run_main(job, first, input_ds=ds)).restart
            base["SIMULATION_PERIOD"]["time_start"] = stamp(t[k])
            base["RESTART"] = {"restart": True}
            sub = ds.isel(time=slice(k + 1, None))
            job.count("restarted")
        first = None
        job.count("cases")
        job.count("wrf", wrf)
        for pol in ("fifo", "lifo", "random", "random", "eager"):
            o = e2e.ok(job, e2e.run_main(job, base, policy=pol, input_ds=ds))
            idx = {k: i for i, k in enumerate(f.key for f in o.sched.futures)}
            order = (tuple(idx.get(k) for e, k in o.sched.trace if e == "exec"), tuple(idx.get(k) for k in o.sched.completion))
            ctx = lambda: {"start": stamp(t[0]), "steps": nt, "shape": ds.MASK.shape, "mask": ds.MASK.values, "wrf": wrf,
                           "policy": pol, "execution and completion order": order, "restart": restart is not None}
            job.count("schedules")
            w = base["PARALLELIZATION"]["workers"]
            job.expect(o.cluster.get("n_workers", w or None) == (w or None), "workers",
                       lambda: f"cluster started with {o.cluster.get('n_workers')} workers, configured {w}", ctx)
            if order not in orders:
                orders.add(order)
                job.count("distinct_orders")
            if first is None:
                first = o
                job.expect(o.result.MASK.values.shape == ds.MASK.values.shape, "shape", "output domain shape", ctx)
                judge_cells(job, sub, o.result, ctx, restart=restart)
            else:
                b1, b2 = diff_ds(o.result, first.result), diff_ds(o.restart, first.restart)
                job.expect(not b1 and not b2 and o.result.attrs == first.result.attrs, "schedule",
                           f"results depend on the schedule: {b1[:6]} {b2[:4]}", ctx)
            job.evaluated(len(o.result.data_vars) + len(o.restart.data_vars), (stamp(t[0]), ds.MASK.shape, order))
        job.sample(ctx())


def large(job):
    """Sparse glaciers in domains of more than ten rows and columns: cells whose
    indices are mirrored or read alike when written one after the other."""
    rng, n = job.rng, 0
    while job.time_left() > 0 or n < 2:
        wrf = n % 2 == 1
        n += 1
        ny, nx, nt = int(rng.integers(12, 26)), int(rng.integers(12, 26)), int(rng.integers(2, 5))
        mask = np.zeros((ny, nx))
        a, b = int(rng.integers(1, min(nx, ny) // 10 + 1)), int(rng.integers(0, min(ny, nx) - 10))
        for y, x in ((a, 10 * a + b), (10 * a + a, b), (b, 10 * a + a), (int(rng.integers(ny)), int(rng.integers(nx)))):
            for p, q in ((y, x), (x, y)):
                if p < ny and q < nx:
                    mask[p, q] = 1
        ds = gen.forcing(rng, nt, ny, nx, job.C["dt"], wrf=wrf, mask=mask, snowheight=rng.uniform(0, 1, (ny, nx)),
                         flavours=["cold", "mixed", "melt", "rain", "hostile", "winter", "hot"])
        t = ds.time.values
        base = {"SIMULATION_PERIOD": {"time_start": stamp(t[0]), "time_end": stamp(t[-1])},
                "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"}, "DIMENSIONS": {"WRF": wrf},
                "FULL_FIELDS": {"full_field": True}, "RESTART": {"restart": False}}
        o = e2e.ok(job, e2e.run_main(job, base, policy="random", input_ds=ds))
        ctx = lambda: {"start": stamp(t[0]), "steps": nt, "shape": (ny, nx), "cells": np.argwhere(mask).tolist(), "wrf": wrf}
        job.count("large_domains")
        judge_cells(job, ds, o.result, ctx, cells=20)
        job.evaluated(len(o.result.data_vars), ("large", ny, nx, tuple(map(tuple, np.argwhere(mask)))))
    job.sample(ctx())


def real(job):
    """Real worker processes on a local cluster against the in-process run."""
    import COSIPY  # noqa: F401
    from dask.distributed import Client, LocalCluster, as_completed, progress

    real_objs = dict(Client=Client, LocalCluster=LocalCluster, as_completed=as_completed, progress=progress)
    rng = job.rng
    ds = gen.forcing(rng, 24, 3, 2, job.C["dt"], variables=("RRR", "N"),
                     mask=[[1, 1], [0, 1], [1, 1]], flavours=["cold", "mixed", "melt", "rain", "hostile", "winter"],
                     snowheight=rng.uniform(0, 1, (3, 2)))
    t = ds.time.values
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    base = {"SIMULATION_PERIOD": {"time_start": stamp(t[0]), "time_end": stamp(t[-1])},
            "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"}, "FULL_FIELDS": {"full_field": True},
            "RESTART": {"restart": False}, "PARALLELIZATION": {"workers": 3, "local_port": port}}
    runs = []
    for k in range(1 if job.tier == "quick" else 3):
        o = e2e.ok(job, e2e.run_main(job, base, fake=False, input_ds=ds))
        runs.append(o)
        job.count("real_cluster_runs")
    a = e2e.ok(job, e2e.run_main(job, base, policy="random", input_ds=ds))
    for o in runs:
        b1, b2 = diff_ds(o.result, a.result), diff_ds(o.restart, a.restart)
        job.expect(not b1 and not b2, "cluster", f"real cluster and in-process runs differ: {b1[:6]} {b2[:4]}")
        job.evaluated(len(o.result.data_vars), ("real", len(runs)))
    judge_cells(job, ds, a.result, lambda: {"real": True}, cells=2)
    job.sample({"cells": ds.MASK.values, "workers": 3})
