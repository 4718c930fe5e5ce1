"""C34 the modelled radiation knows sun, slope, sky and shadow (Moelg2009)."""
import math

import numpy as np

from checks import sunref as R

RULE = ("random and constructed terrains (plains, ridges, walls on one side, pits, rough relief; square and non-square grids) "
        "through the real relshad, LUTshad, LUTsvf, solpars and calcRad: shadows against horizon bounds, tables against direct "
        "calls at the reference sun, radiation against an independent vector implementation; distinct by (terrain kind, sun "
        "direction, elevation class, latitude band, season, cloud class).")
REQUIRED = {"shaded": 150, "sunlit": 300, "plain": 100, "raised": 100, "sky_plain": 4, "sky_tilted": 8, "sky_pit": 4, "sky_pit_inclined": 4,
            "table_night": 300, "table_shaded": 20, "table_sunlit": 300, "table_day": 300, "table_steps": 2, "radiation": 300, "dark": 60, "selfshaded": 100, "in_shadow": 100,
            "cloudless": 60, "overcast": 60, "polar": 1, "sun": 1000, "border": 20}


def jobs(tier, seed):
    q = tier == "quick"
    k = dict(mode="jit", budget_s=14 if q else 150, timeout_s=800)
    out = []
    for i in range(2 if q else 4):
        out += [dict(name=f"shadow-{i}", func="shadow", **k), dict(name=f"radiation-{i}", func="radiation", **k)]
    out += [dict(name="tables-0", func="tables", **k), dict(name="tables-1", func="tables", **k), dict(name="sky-0", func="sky", **k)]
    return out


def grid(rng, big=True):
    ny, nx = int(rng.integers(7, 22 if big else 9)), int(rng.integers(7, 22 if big else 9))
    lat0 = float(rng.uniform(-60, 65))
    dla = float(rng.choice([0.003, 0.01, 0.002]))
    dlo = dla * float(rng.choice([1.0, 1.0, 1.5, 0.6]))
    lats = lat0 - dla * np.arange(ny)
    lons = float(rng.uniform(-100, 100)) + dlo * np.arange(nx)
    return lats, lons


def relief(rng, lats, lons):
    ny, nx = len(lats), len(lons)
    kind = str(rng.choice(["plain", "rough", "hills", "wall", "pit", "ridge"]))
    z = np.full((ny, nx), float(rng.uniform(0, 5000)))
    y, x = np.mgrid[0:ny, 0:nx]
    if kind == "rough":
        z = z + rng.uniform(0, 400, (ny, nx))
    elif kind == "hills":
        for _ in range(int(rng.integers(1, 5))):
            z = z + rng.uniform(200, 1500) * np.exp(-((y - rng.uniform(0, ny)) ** 2 + (x - rng.uniform(0, nx)) ** 2) / rng.uniform(2, 20))
    elif kind in ("wall", "ridge"):
        h = float(rng.uniform(300, 3000))
        side = int(rng.integers(4))
        w = int(rng.integers(4, 9)) if kind == "wall" else 3
        at = 0 if kind == "wall" else int(rng.integers(1, 4))
        sel = [y < w + at, y >= ny - w - at, x < w + at, x >= nx - w - at][side]
        z = z + np.where(sel, h, 0.0)
    elif kind == "pit":
        r = np.maximum(abs(y - ny / 2), abs(x - nx / 2))
        z = z + np.where(r > 2, float(rng.uniform(300, 2500)), 0.0)
    return kind, z


def shadow(job):
    import cosipy.modules.radCor as M

    rng = job.rng
    while job.time_left() > 0 or job.counters.get("shaded", 0) < 90 or job.counters.get("plain", 0) < 100:
        lats, lons = grid(rng)
        kind, z = relief(rng, lats, lons)
        mask = np.where(rng.random(z.shape) < 0.5, 1.0, rng.choice([0.0, np.nan]))
        if rng.random() < 0.3:
            mask[:] = 1.0
        el = float(rng.choice([rng.uniform(1, 70), rng.uniform(1, 20), rng.uniform(1, 6)]))
        az = float(rng.uniform(-180, 540) if rng.random() < 0.6 else rng.choice([0, 90, 180, 270, 360, -90]))
        if kind != "plain" and rng.random() < 0.6:         # look towards the highest ground
            top, me = np.argwhere(z >= z.max() - 1.0), np.argwhere(mask == 1)
            if len(me):
                (ty, tx), (my, mx) = top[rng.integers(len(top))], me[rng.integers(len(me))]
                az = math.degrees(math.atan2(lons[tx] - lons[mx], lats[ty] - lats[my]))
                el = float(rng.uniform(1, 12))
        before = (z.copy(), mask.copy(), lats.copy(), lons.copy())
        illu = M.relshad(z, mask, lats, lons, el, az)
        ctx = lambda: {"terrain": kind, "heights": z, "mask": mask, "lats": lats, "lons": lons, "elevation": el, "azimuth": az, "illumination": illu}
        job.expect(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, (z, mask, lats, lons))), "inputs-changed", "the shading routine changed its inputs", ctx)
        inner = np.zeros(z.shape, bool)
        inner[1:-1, 1:-1] = True
        on = inner & (mask == 1)
        job.expect(illu.shape == z.shape and np.isin(illu[on], (0, 1)).all() and np.isnan(illu[~on]).all(), "cells", "not exactly the inner glacier cells were judged", ctx)
        if kind == "plain":
            job.expect((illu[on] == 1).all(), "plain", "a plain casts a shadow", ctx)
            job.count("plain", on.sum())
        cells = [tuple(c) for c in np.argwhere(on)]
        rng.shuffle(cells)
        for i, j in cells[:6]:
            lo, hi = R.bracket(z, lats, lons, i, j, az, 1)
            if lo > el + 0.3:
                job.expect(illu[i, j] == 0, "not-shaded", lambda: f"cell ({i},{j}) is in the sun at {el:.1f} degrees, the terrain rises to at least {lo:.1f}", ctx)
                job.count("shaded")
            elif hi < el - 0.3:
                job.expect(illu[i, j] == 1, "not-sunlit", lambda: f"cell ({i},{j}) is shaded at {el:.1f} degrees, the terrain rises to at most {hi:.1f}", ctx)
                job.count("sunlit")
            else:
                job.count("undecided")
            job.count("border", i in (1, z.shape[0] - 2) or j in (1, z.shape[1] - 2))
            job.evaluated(1, (kind, int(el) // 10, int(az % 360) // 30, lo > el, hi < el, lons[1] - lons[0] == lats[0] - lats[1]))
        # higher terrain elsewhere, or a lower sun, never brightens a cell
        if cells:
            i, j = cells[0]
            up = z + rng.uniform(0, 500, z.shape)
            up[i, j] = z[i, j]
            a, b = M.relshad(up, mask, lats, lons, el, az)[i, j], M.relshad(z, mask, lats, lons, el * 0.6, az)[i, j]
            job.expect(a <= illu[i, j] and b <= illu[i, j], "brighter", "raising the terrain or lowering the sun lit a shaded cell", ctx)
            turn = M.relshad(z, mask, lats, lons, el, az + 360)
            job.expect(turn[i, j] == illu[i, j] or 0 < az % 90 < 1e-6 or abs(az % 45) < 1e-6, "full-turn", "a full turn of the sun changes the shadow", ctx)
            job.count("raised")
    job.sample(ctx())


def solar(lat, day, hour, step, tcart):
    """Sun at the middle of the step that ends at `hour` (times in the station's clock; TCART shifts it, in degrees)."""
    dec, eot = R.noaa(day, 12)
    morning = 180 + step / 3600 * 7.5 - hour * 15 - eot / 4 + tcart
    return R.vector(lat, dec, -math.radians(morning)), dec


def tables(job):
    import cosipy.modules.radCor as M

    rng = job.rng
    n = 0
    while job.time_left() > 2 or n < 2:
        n += 1
        lats, lons = grid(rng)
        lat = float(lats.mean())
        if rng.random() < 0.4:
            lat = float(rng.choice([68.0, 78.9, -71.0, 66.0, -54.4]))
        sp, tc = M.solpars(lat)
        job.count("polar", abs(lat) > 66.6)
        kind, z = relief(rng, lats, lons)
        while kind == "plain" and rng.random() < 0.8:
            kind, z = relief(rng, lats, lons)
        mask = np.full(z.shape, np.nan)
        c = (int(rng.integers(1, z.shape[0] - 1)), int(rng.integers(1, z.shape[1] - 1)))
        mask[c] = 1
        step = int(rng.choice([3600, 10800, 7200, 21600]))
        tcart = float(rng.choice([0, 26, -40]))
        lut = M.LUTshad(sp, tc, lat, z, mask, lats, lons, step, tcart)
        per = 86400 // step
        ctx = lambda: {"lat": lat, "terrain": kind, "step": step, "tcart": tcart, "cell": c}
        job.count("table_steps")
        if not job.expect(lut.shape == (366 * per,) + z.shape, "table-shape", lambda: f"the table has {lut.shape}", ctx):
            continue
        job.expect(np.isnan(lut[:, mask != 1]).all(), "table-mask", "cells outside the glacier have entries", ctx)
        v = lut[:, c[0], c[1]]
        job.expect(np.isin(v, (-1, 0, 1)).all(), "table-values", "entries other than night, shade or sun", ctx)
        pick = rng.integers(0, 366 * per, 400)
        for k in pick:
            day, s = int(k) // per + 1, int(k) % per
            sv, _ = solar(lat, min(day, 365), s * step / 3600, step, tcart)
            el = math.degrees(math.asin(max(-1, min(1, sv[2]))))
            w = lambda: dict(ctx(), day=day, hour=s * step / 3600, entry=v[k], sun=sv)
            if el < -0.4:
                job.expect(v[k] == -1, "night", lambda: f"sun at {el:.2f} degrees but the table says {v[k]}", w)
                job.count("table_night")
            elif el > 1.6:
                job.expect(v[k] != -1, "day", lambda: f"sun at {el:.2f} degrees but the table says night", w)
                job.count("table_day")
                if el < 88:
                    az = math.degrees(math.atan2(sv[0], sv[1]))
                    los, his = zip(*[R.bracket(z, lats, lons, c[0], c[1], az + d, 1) for d in (-1.5, 0, 1.5)])
                    if min(los) > el + 1:
                        job.expect(v[k] == 0, "table-shade", lambda: f"in the sun at {el:.1f}, terrain at least {min(los):.1f} degrees", w)
                        job.count("table_shaded")
                    elif max(his) < el - 1:
                        job.expect(v[k] == 1, "table-sun", lambda: f"shaded at {el:.1f}, terrain at most {max(his):.1f} degrees", w)
                        job.count("table_sunlit")
            job.evaluated(1, (kind, step, round(lat / 20), day // 40, s, v[k]))
        job.sample(ctx())
    # declination, equation of time and eccentricity
    for day in range(1, 367):
        dec, eot = R.noaa(min(day, 365), 12)
        e = 1 + 0.033 * math.cos(2 * math.pi * min(day, 365) / 365)
        got = sp[day - 1, 3], tc[day - 1, 3] * 4, sp[day - 1, 2]
        job.expect(abs(got[0] - dec) < math.radians(0.5) and abs(got[1] - eot) < 1.0 and abs(got[2] - e) < 0.005, "orbit",
                   lambda: f"day {day}: declination {math.degrees(got[0]):.2f}, equation of time {got[1]:.2f}, distance factor {got[2]:.4f}",
                   lambda: {"expected": [math.degrees(dec), eot, e]})
        h = -math.tan(math.radians(lat)) * math.tan(sp[day - 1, 3])
        want = math.degrees(math.acos(max(-1, min(1, h))))
        job.expect(abs(sp[day - 1, 5] - want) < 1e-6 and abs(sp[day - 1, 6] - want * 2 / 15) < 1e-6 and abs(math.degrees(sp[day - 1, 3]) - sp[day - 1, 4]) < 1e-9,
                   "day-length", lambda: f"day {day}: sunrise hour angle {sp[day - 1, 5]}, day length {sp[day - 1, 6]}", lambda: {"lat": lat, "expected": want})
        job.count("sun", 3)
        job.evaluated(1, ("orbit", day, round(lat)))


def sky(job):
    import cosipy.modules.radCor as M

    rng = job.rng
    n = 0
    az, el = np.meshgrid(np.radians(np.arange(10, 370, 10)), np.radians(np.arange(2, 90, 2)), indexing="ij")
    dirs = np.stack([np.cos(el) * np.sin(az), np.cos(el) * np.cos(az), np.sin(el)], -1)
    while job.time_left() > 2 or n < 12:
        n += 1
        lats, lons = grid(rng)
        ny, nx = len(lats), len(lons)
        mask = np.full((ny, nx), np.nan)
        cells = [(int(rng.integers(0, ny)), int(rng.integers(0, nx))) for _ in range(2)] + [(ny // 2, nx // 2)]
        for c in cells:
            mask[c] = 1
        slope = np.where(rng.random((ny, nx)) < 0.3, 0.0, rng.uniform(0, 70, (ny, nx)))
        aspect = rng.uniform(0, 360, (ny, nx))
        flat = np.full((ny, nx), 4000.0)
        a = M.LUTsvf(flat, mask, slope, aspect, lats, lons)
        ctx = lambda: {"slope": [slope[c] for c in cells], "aspect": [aspect[c] for c in cells], "cells": cells, "svf": [a[c] for c in cells]}
        job.expect(np.array_equal(np.isnan(a), mask != 1), "sky-mask", "not exactly the glacier cells have a sky view factor", ctx)
        for c in cells:
            dot = (dirs * R.normal(slope[c], aspect[c])).sum(-1)
            lo, hi = (dot > 1e-9).mean(), (dot > -1e-9).mean()
            job.expect(lo - 1e-9 <= a[c] <= hi + 1e-9, "sky-slope", lambda: f"sky view factor {a[c]} of a {slope[c]:.1f} degree slope, expected {lo}", ctx)
            job.count("sky_plain" if slope[c] == 0 else "sky_tilted")
            job.evaluated(1, ("tilt", int(slope[c]) // 10, int(aspect[c]) // 45))
        # terrain around: less sky, and as much as the horizon bounds allow
        kind, z = relief(rng, lats, lons)
        if kind == "plain":
            kind, z = "pit", flat + np.where(np.maximum(*[abs(g - s / 2) for g, s in zip(np.mgrid[0:ny, 0:nx], (ny, nx))]) > 2, 900.0, 0.0)
        inclined = n % 2 == 0             # every other terrain on slopes: both have to block the same directions
        if inclined:
            slope[cells[-1]] = rng.uniform(20, 60)
        sl = slope if inclined else slope * 0
        b = M.LUTsvf(z, mask, sl, aspect, lats, lons)
        job.expect(((b[mask == 1] >= 0) & (b[mask == 1] <= 1)).all(), "sky-range", "sky view factor outside 0..1", lambda: {"svf": b})
        c = cells[-1]
        lo = hi = 0
        dot = (dirs * R.normal(sl[c], aspect[c])).sum(-1)
        for k, t in enumerate(range(10, 370, 10)):
            l, h = R.bracket(z, lats, lons, c[0], c[1], t, 1)
            e = np.arange(2, 90, 2)
            lo += ((e > h + 0.3) & (dot[k] > 1e-9)).sum()
            hi += ((e > l - 0.3) & (dot[k] > -1e-9)).sum()
        job.expect(lo / 1584 - 1e-9 <= b[c] <= hi / 1584 + 1e-9, "sky-terrain", lambda: f"sky view factor {b[c]:.3f}, the horizon leaves {lo / 1584:.3f} to {hi / 1584:.3f}",
                   lambda: {"heights": z, "lats": lats, "lons": lons, "cell": c})
        job.count("sky_pit_inclined" if inclined else "sky_pit")
        job.evaluated(1, ("terrain", kind, ny, nx, round(float(b[c]), 1)))
    job.sample(ctx())


def radiation(job):
    import cosipy.modules.radCor as M

    rng = job.rng
    while job.time_left() > 0 or min(job.counters.get(k, 0) for k in ("radiation", "dark")) < 200:
        lat = float(rng.choice([rng.uniform(-66, 66), rng.choice([30.47, 46.8, -54.4, 78.9, -75.0])]))
        sp, tc = M.solpars(lat)
        step = int(rng.choice([3600, 3600, 10800, 7200]))
        per = 86400 // step
        for _ in range(12):
            ny, nx = int(rng.integers(2, 6)), int(rng.integers(2, 6))
            shp = (ny, nx)
            day, hour = int(rng.integers(1, 367)), int(rng.integers(0, 24))
            tcart = float(rng.choice([0, 26, -40]))
            temp, pres, rh = rng.uniform(240, 300, shp), rng.uniform(450, 1010, shp), rng.uniform(1, 100, shp)
            cld = rng.uniform(0, 1, shp)
            cld[rng.random(shp) < 0.2] = 0.0
            cld[rng.random(shp) < 0.2] = 1.0
            z, slope, aspect = rng.uniform(0, 6500, shp), rng.uniform(0, 60, shp), rng.uniform(0, 360, shp)
            slope[rng.random(shp) < 0.2] = 0.0
            mask = np.ones(shp)
            svf = rng.uniform(0.2, 1, shp)
            lut = rng.choice([0.0, 1.0], (366 * per,) + shp)
            here = int((day - 1) * per + hour // (step / 3600))
            got = np.asarray(M.calcRad(sp, tc, day, hour, lat, temp.copy(), pres.copy(), rh.copy(), cld.copy(), z.copy(), mask, slope.copy(), aspect.copy(),
                                       lut, svf, step, tcart), float)[::-1, :]
            ctx = lambda: {"lat": lat, "day": day, "hour": hour, "step": step, "tcart": tcart, "cloud": cld, "slope": slope, "aspect": aspect, "shade": lut[here],
                           "svf": svf, "result": got}
            # the sun, from the module's own orbital parameters (judged against the reference in `tables`)
            morning = 180 + step / 3600 * 7.5 - hour * 15 - tc[day - 1, 3] + tcart
            sv = R.vector(lat, sp[day - 1, 3], -math.radians(morning))
            far, _ = solar(lat, min(day, 365), hour, step, tcart)
            job.expect(R.angle(sv, far) < 1.0, "sun-position", "the sun is not at its true position", ctx)
            if abs(sv[2] - 0.01) < 1e-9:
                continue
            if sv[2] < 0.01:
                job.expect((got == 0).all(), "night", lambda: f"radiation {got.max()} without the sun", ctx)
                job.count("dark")
            else:
                ref, direct, diff = R.moelg(sv, sp[day - 1, 2], temp, pres, rh, cld, z, slope, aspect, lut[here], svf)
                ref = np.maximum(ref, 0.0)
                bad = ~(np.abs(got - ref) <= 1e-6 * (1 + np.abs(ref)))
                job.expect(not bad.any(), "radiation", lambda: f"radiation {got[bad][0]}, expected {ref[bad][0]} ({bad.sum()} of {bad.size} cells)", ctx)
                job.expect((got >= 0).all() and (got < 1450).all(), "range", lambda: f"radiation {got.min()} .. {got.max()}", ctx)
                job.count("radiation", bad.size)
                job.count("selfshaded", (direct == 0).sum())
                job.count("in_shadow", (lut[here] == 0).sum())
                job.count("cloudless", (cld == 0).sum())
                job.count("overcast", (cld == 1).sum())
            job.count("sun")
            job.evaluated(ny * nx, (round(lat / 20), day // 45, hour // 3, step, sv[2] > 0.01))
    job.sample(ctx())
