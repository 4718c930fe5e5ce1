"""C26 stake evaluation."""
import numpy as np
import pandas as pd

from checks.c01 import diff_ds, equal, make, stamp
from checks.common import VARIANTS
from harness import e2e, gen, trace

RULE = ("end-to-end runs with random stakes (several per cell, off-glacier, near the date line and the poles), measurement times on, "
        "between and outside the steps, missing measurements, both observation types, layouts, tiles, schedules and restarts; "
        "the written tables and the column model's own evaluation compared with values recomputed from the output file.  "
        "Distinct by stake layout.")
REQUIRED = {"cases": 20, "wrf": 6, "stakes": 60, "shared_cells": 5, "off_glacier": 8, "mb": 6, "snowheight": 6, "values": 100,
            "rmse": 40, "gaps": 10, "plain_compared": 8, "direct": 20, "degree_metric_differs": 4}
NAMES = ["default", "dt-day", "dt3h", "MO", "physics"]


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"stakes-{v}-{c}", func="stakes", constants=VARIANTS[v], budget_s=15 if q else 120, timeout_s=600)
            for c in range(1 if q else 3) for v in NAMES]


def ecef(lat, lon):
    a, f = 6378.137, 1 / 298.257223563
    e2 = f * (2 - f)
    p, l = np.radians(lat), np.radians(lon)
    n = a / np.sqrt(1 - e2 * np.sin(p) ** 2)
    return np.stack([n * np.cos(p) * np.cos(l), n * np.cos(p) * np.sin(l), n * (1 - e2) * np.sin(p)], -1)


def stakes(job):
    rng = job.rng
    root = e2e.datadir(job)
    n = 0
    while job.time_left() > 0 or n < 4:
        wrf = n % 3 == 1
        n += 1
        nt = int(rng.integers(6, 30))
        ds = make(job, nt, wrf, 4, 4)
        # place the domain anywhere on the globe
        lat0 = float(rng.choice([rng.uniform(-78, 78), rng.uniform(60, 85), rng.uniform(-85, -60)]))
        lon0 = float(rng.choice([rng.uniform(-179, 170), 179.7]))
        dla, dlo = 0.02 * rng.uniform(0.5, 3), 0.02 * rng.uniform(0.5, 3)
        if wrf:
            la, lo = np.meshgrid(lat0 + dla * np.arange(ds.MASK.shape[0]), lon0 + dlo * np.arange(ds.MASK.shape[1]), indexing="ij")
            lo = lo + rng.uniform(0.3, 2.5) * dlo * np.arange(ds.MASK.shape[0])[:, None]      # curvilinear
            ds = ds.assign_coords(lat=(ds.MASK.dims, la), lon=(ds.MASK.dims, lo))
        else:
            lats, lons = lat0 + dla * np.arange(ds.MASK.shape[0]), lon0 + dlo * np.arange(ds.MASK.shape[1])
            if rng.random() < 0.4:
                lats = lats[::-1].copy()
            ds = ds.assign_coords(lat=lats, lon=lons)
        sub, cfg_tile = ds, dict(tile=False)
        if rng.random() < 0.25 and min(ds.MASK.shape) > 1:
            s = slice(1, None)
            if (ds.MASK.values[s, s] == 1).any():
                sub = ds.isel({ds.MASK.dims[0]: s, ds.MASK.dims[1]: s})
                cfg_tile = dict(tile=True, ystart=1, yend=9, xstart=1, xend=9)
        mask = sub.MASK.values
        la, lo = (sub.lat.values, sub.lon.values) if wrf else np.meshgrid(sub.lat.values, sub.lon.values, indexing="ij")
        grid = ecef(la, lo)
        t = ds.time.values
        # -- stakes
        rows, cells, differs = [], {}, 0
        for k in range(int(rng.integers(1, 7))):
            y, x = int(rng.integers(la.shape[0])), int(rng.integers(la.shape[1]))
            if cells and rng.random() < 0.3:
                y, x = list(cells.values())[0]
            for _ in range(25 if wrf and rng.random() < 0.6 else 1):    # prefer places where degrees mislead
                sla, slo = la[y, x] + dla * rng.uniform(-0.9, 0.9), lo[y, x] + dlo * rng.uniform(-0.9, 0.9)
                d = np.linalg.norm(grid - ecef(sla, slo), axis=-1)
                if np.argmin(d) != np.argmin((la - sla) ** 2 + (lo - slo) ** 2):
                    break
            if slo > 180 and rng.random() < 0.5:
                slo -= 360
            near = np.sort(d.ravel())
            if near.size > 1 and near[1] - near[0] < 0.01 * near[1]:
                continue
            name = f"S{k}" if rng.random() < 0.7 else f"Pit {k:02d}"
            cells[name] = tuple(int(v) for v in np.unravel_index(np.argmin(d), d.shape))
            dd = (la - sla) ** 2 + (lo - slo) ** 2
            differs += tuple(np.unravel_index(np.argmin(dd), dd.shape)) != cells[name]
            rows.append((name, repr(float(slo)), repr(float(sla)), 3000))
        if not rows:
            continue
        if rng.random() < 0.5:
            rows = [rows[int(i)] for i in rng.permutation(len(rows))]
        times = list(rng.permutation(t)[: int(rng.integers(1, min(nt, 8) + 1))])
        for _ in range(int(rng.integers(0, 3))):
            times.append(t[int(rng.integers(nt))] + np.timedelta64(int(rng.integers(1, 14)), "m"))
        if rng.random() < 0.4:
            times.append(t[-1] + np.timedelta64(40, "D"))
        times = np.array(sorted(set(times)), "datetime64[ns]")
        if rng.random() < 0.2:
            times = times[::-1]
        obs = np.round(rng.uniform(-1.5, 2.5, (len(times), len(rows))), 3)
        gap = rng.random(obs.shape) < 0.25
        job.count("gaps", gap.any())
        (root / "stakes").mkdir(exist_ok=True)
        loc, dat = root / "stakes" / "loc.csv", root / "stakes" / "data.csv"
        loc.write_text("id\tlon\tlat\televation\n" + "".join("\t".join(map(str, r)) + "\n" for r in rows))
        cols = [r[0] for r in rows]
        order = [cols[int(i)] for i in rng.permutation(len(cols))]
        dat.write_text("TIMESTAMP\t" + "\t".join(order) + "\n" + "".join(
            str(pd.Timestamp(x)) + "".join("\t" + ("-9999" if gap[i, cols.index(c)] else repr(float(obs[i, cols.index(c)]))) for c in order) + "\n"
            for i, x in enumerate(times)))
        kind = str(rng.choice(["mb", "snowheight"]))
        cfg = {"SIMULATION_PERIOD": {"time_start": stamp(t[0]), "time_end": stamp(t[-1])},
               "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"}, "DIMENSIONS": {"WRF": wrf}, "SUBSET": cfg_tile,
               "FULL_FIELDS": {"full_field": False}, "RESTART": {"restart": False},
               "STAKE_DATA": dict(stake_evaluation=True, stakes_loc_file=str(loc), stakes_data_file=str(dat), eval_method="rmse", obs_type=kind)}
        lo_i = 0
        if rng.random() < 0.25 and nt > 8:      # evaluate a continued run
            lo_i = int(rng.integers(1, nt - 3))
            c0 = dict(cfg, SIMULATION_PERIOD={"time_start": stamp(t[0]), "time_end": stamp(t[lo_i - 1])}, STAKE_DATA={"stake_evaluation": False})
            e2e.ok(job, e2e.run_main(job, c0, input_ds=ds))
            cfg["SIMULATION_PERIOD"] = {"time_start": stamp(t[lo_i - 1]), "time_end": stamp(t[-1])}
            cfg["RESTART"] = {"restart": True}
            job.count("restarted")
        o = e2e.ok(job, e2e.run_main(job, cfg, input_ds=ds))
        R = o.result
        job.count("cases")
        job.count("wrf", wrf)
        job.count("stakes", len(rows))
        job.count(kind)
        job.count("shared_cells", len(set(cells.values())) < len(cells))
        job.count("degree_metric_differs", differs)
        ctx = lambda: {"stakes": rows, "cells": cells, "times": times, "kind": kind, "lat": la, "lon": lo, "mask": mask, "wrf": wrf, "tile": cfg_tile}
        sim = pd.read_csv(root / "output" / "stake_simulations.csv", sep="\t", index_col="TIMESTAMP")
        stat = pd.read_csv(root / "output" / "stake_statistics.csv", sep="\t", index_col=0)
        sim.index = pd.to_datetime(sim.index)
        job.expect(sorted(sim.columns) == sorted(cols) and np.array_equal(sim.index.values.astype("datetime64[ns]"), times), "table",
                   "the simulation table does not hold the stakes and times of the data file", ctx)
        on = [c for c in cols if mask[cells[c]] == 1]
        job.expect(sorted(stat.index) == sorted(on), "statistics-rows",
                   lambda: f"statistics for {sorted(stat.index)}, stakes on glacier cells are {sorted(on)}", ctx)
        for c in cols:
            y, x = cells[c]
            i = cols.index(c)
            s = np.cumsum(R.MB.values[:, y, x]) if kind == "mb" else R.SNOWHEIGHT.values[:, y, x]
            pos = {v: k for k, v in enumerate(R.time.values)}
            want = np.array([s[pos[v]] if v in pos and mask[y, x] == 1 else np.nan for v in times])
            got = sim[c].values.astype(float)
            job.count("values", np.isfinite(want).sum())
            job.count("off_glacier", mask[y, x] != 1)
            job.expect(np.array_equal(np.isnan(want), np.isnan(got)) and np.all(np.abs(want - got)[np.isfinite(want)] <= 0.00501),
                       "series" if mask[y, x] == 1 else "off-glacier",
                       lambda: f"stake {c} (cell {cells[c]}): simulated {kind} {got.tolist()}, model {want.tolist()}", ctx)
            if c in stat.index:
                d = np.where(gap[:, i], np.nan, obs[:, i]) - want
                e = np.sqrt(np.nanmean(d ** 2)) if np.isfinite(d).any() else np.nan
                g = float(stat.loc[c, "rmse"])
                job.count("rmse", np.isfinite(e))
                job.expect((np.isnan(e) and np.isnan(g)) or abs(e - g) <= 0.00501, "rmse", lambda: f"stake {c}: rmse {g}, expected {e}", ctx)
        job.evaluated(3 * len(cols) + 2, (tuple(rows), kind, stamp(t[0])))
        # -- unrounded, from the column model itself
        if on and lo_i == 0:
            y, x = cells[on[0]]
            mine = [c for c in on if cells[c] == (y, x)]
            data = pd.DataFrame(np.where(gap, np.nan, obs), index=pd.DatetimeIndex(times), columns=cols)
            tr = trace.run(gen.cell(sub, y, x), stake_names=mine, stake_data=data)
            inrun = np.isin(times, t)
            k = [int(np.where(t == v)[0][0]) for v in times[inrun]]
            ok = np.allclose(tr["df"]["mb"].values[inrun], np.cumsum(tr["MB"])[k], rtol=1e-9, atol=1e-12) and \
                np.allclose(tr["df"]["snowheight"].values[inrun], tr["SNOWHEIGHT"][k], rtol=1e-12) and \
                tr["df"][["mb", "snowheight"]][~inrun].isna().all(axis=None)
            job.count("direct")
            job.expect(ok, "direct-series", "the column model's stake series are not its cumulated mass balance and snow height", ctx)
            ser = tr["df"][kind].values
            for c in mine:
                d = data[c].values - ser
                e = np.sqrt(np.nanmean(d ** 2)) if np.isfinite(d).any() else np.nan
                job.expect(np.isclose(e, tr["stat"][c], rtol=1e-9, equal_nan=True), "direct-rmse", lambda: f"rmse {tr['stat'][c]}, expected {e}", ctx)
        # -- evaluation leaves the simulation alone
        if rng.random() < 0.5:
            p = e2e.ok(job, e2e.run_main(job, dict(cfg, STAKE_DATA={"stake_evaluation": False})))
            bad = diff_ds(p.result, R) + diff_ds(p.restart, o.restart)
            job.count("plain_compared")
            job.expect(not bad, "altered", f"evaluating stakes changed {bad[:6]}", ctx)
        job.sample({"stakes": rows, "cells": cells, "kind": kind, "mask": mask})
        for p in [p for p in root.rglob("*") if p.is_file()]:
            p.unlink()
