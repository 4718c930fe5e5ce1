"""C30 the measured radiation is corrected for the terrain with the true position of the sun (Wohlfahrt2016)."""
import math

import numpy as np

from checks import sunref as R

RULE = ("random and hostile places, days, times, slopes, aspects and measured fluxes through the real solarFParallel, "
        "Fdif_Neustift, radCor2D and correctRadiation; distinct by (latitude band, season, hour, slope and aspect class, "
        "clearness class, zenith class).")
REQUIRED = {"sun": 4000, "night": 500, "flat": 1000, "tilted": 1500, "facing": 300, "averted": 300, "diffuse": 1000, "low_sun": 50,
            "shifted": 1000, "noon": 500, "overcast": 200, "southern": 1000}


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"radiation-{i}", func="radiation", mode="jit", budget_s=12 if q else 150, timeout_s=600) for i in range(2 if q else 6)]


def radiation(job):
    import cosipy.modules.radCor as M

    rng = job.rng
    while job.time_left() > 0 or job.counters.get("sun", 0) < 2500:
        lat = float(rng.choice([rng.uniform(-89, 89), rng.uniform(-60, 60), rng.choice([0.0, 30.47, 46.8, -54.4, 66.56, 78.9, -33.3])]))
        lon = float(rng.uniform(-180, 180))
        tz = float(15 * round(lon / 15) if rng.random() < 0.5 else lon + rng.uniform(-30, 30))
        day = int(rng.integers(1, 367))
        hour = float(rng.integers(0, 24) if rng.random() < 0.6 else rng.uniform(0, 24))
        beta, zeni, azi = M.solarFParallel(lat, lon, tz, day, hour)
        want, ha = R.sun(lat, lon, tz, day, hour)
        ctx = lambda: {"lat": lat, "lon": lon, "timezone_lon": tz, "day": day, "hour": hour, "code": [beta, zeni, azi], "reference": want}
        job.count("sun")
        job.expect(abs(beta + zeni - math.pi / 2) < 1e-9, "zenith", lambda: f"elevation {beta} and zenith {zeni} do not add up to 90 degrees", ctx)
        got = np.array([-math.sin(zeni) * math.sin(azi), -math.sin(zeni) * math.cos(azi), math.cos(zeni)])
        judged = abs(ha) < math.pi - 0.05      # before midnight turns over
        if judged:
            off = R.angle(got, want)
            job.expect(off < 1.0, "sun-position", lambda: f"the sun is {off:.2f} degrees from its true position", ctx)
            job.evaluated(1, ("sun", round(lat / 15), day // 45, int(hour) // 3, round((lon - tz) / 10)))
        job.count("southern", lat < 0)
        # the same instant, expressed for another longitude or another time zone
        if 1 <= hour <= 22 and judged:
            d = float(rng.uniform(-1, 1))
            east, later = M.solarFParallel(lat, lon + 15 * d, tz, day, hour), M.solarFParallel(lat, lon, tz, day, hour + d)
            job.expect(abs(east[0] - later[0]) < 1e-9, "time-and-longitude", "an hour later is not the same as 15 degrees further east", ctx)
            a, b = M.solarFParallel(lat, lon, tz, day, hour), M.solarFParallel(lat, lon + 15 * d, tz + 15 * d, day, hour)
            job.expect(max(abs(x - y) for x, y in zip(a, b)) < 1e-9 or abs(math.sin(a[1])) < 1e-6, "time-zone", "the sun depends on the longitude apart from its distance to the time zone's meridian", ctx)
            job.count("shifted")
        # culmination: due south (north) at true noon, and the highest point of the day
        _, eot = R.noaa(day, 12)
        noon = 12 - (lon - tz) / 15 - eot / 60
        if 8 < noon < 16 and abs(lat - math.degrees(R.noaa(day, 12)[0])) > 4 and abs(lat) < 85:
            b, z, a = M.solarFParallel(lat, lon, tz, day, noon)
            due = 0.0 if lat > math.degrees(R.noaa(day, 12)[0]) else math.pi
            dev = abs((abs(a) - due)) * math.sin(z)
            job.expect(dev < math.radians(1.0), "noon", lambda: f"at noon the sun stands {math.degrees(a):.1f} degrees from south", ctx)
            job.count("noon")
        # radiation on the slope
        thld = float(rng.choice([85.0, 89.0, 80.0, 60.0]))
        cosz = math.cos(zeni)
        if abs(cosz) < 1e-6:
            continue
        pot = 1367 * cosz
        kind = rng.random()
        rg = 0.0 if kind < 0.1 else float(max(pot, 0) * rng.uniform(0, 1.1)) if kind < 0.8 else float(rng.uniform(0, 1200))
        slope = float(0.0 if rng.random() < 0.2 else rng.uniform(0, 80) if rng.random() < 0.7 else rng.uniform(0, 15))
        aspect = float(rng.uniform(-180, 180))          # south 0, east negative, west positive
        sctx = lambda: dict(ctx(), slope=slope, aspect=aspect, measured=rg, threshold=thld, result=res)
        f = M.Fdif_Neustift(day, zeni, rg)
        fref = R.diffuse_fraction(day, cosz, rg)
        res = None
        job.expect(0.2465 - 1e-12 <= f <= 1 + 1e-12 and abs(f - fref) < 1e-9, "diffuse-fraction", lambda: f"diffuse fraction {f}, expected {fref}", sctx)
        g = M.Fdif_Neustift(day, zeni, rg * 0.9) if cosz > 0 else f
        job.expect(g >= f - 1e-12, "diffuse-monotone", "a darker sky has a smaller diffuse fraction", sctx)
        job.count("diffuse")
        s = got
        res = float(M.radCor2D(day, zeni, azi, slope, aspect, rg, thld))
        ref = R.wohlfahrt(day, s, slope, aspect, rg, thld)
        tol = 1e-6 * max(abs(ref), rg, 1e-3)
        job.expect(math.isfinite(res) and abs(res - ref) <= tol, "slope-radiation", lambda: f"radiation on the slope {res}, expected {ref}", sctx)
        job.expect(abs(res - float(M.correctRadiation(lat, lon, tz, day, hour, slope, aspect, rg, thld))) <= 1e-9 * max(abs(res), 1), "one-call",
                   "correctRadiation differs from its parts", sctx)
        flat = float(M.correctRadiation(lat, lon, tz, day, hour, 0.0, aspect, rg, thld))
        job.expect(abs(flat - rg) <= 1e-9 * max(rg, 1) / max(abs(cosz), 1e-6), "flat", lambda: f"flat ground gets {flat} instead of the measured {rg}", sctx)
        job.count("flat")
        if zeni > math.radians(thld):
            job.expect(abs(res - rg) <= 1e-9 * max(rg, 1), "low-sun", lambda: f"diffuse light was changed by the slope: {res} instead of {rg}", sctx)
            job.count("night" if zeni > math.pi / 2 else "low_sun")
        elif rg > 1 and slope > 1:
            facing = float(M.correctRadiation(lat, lon, tz, day, hour, slope, math.degrees(azi), rg, thld))
            averted = float(M.correctRadiation(lat, lon, tz, day, hour, slope, math.degrees(azi) + 180, rg, thld))
            job.expect(averted - tol <= res <= facing + tol, "orientation", lambda: f"{res} outside the range of a slope turned to ({facing}) and from ({averted}) the sun", sctx)
            job.count("facing", facing > rg)
            job.count("averted", averted < rg)
            job.count("tilted")
            job.count("overcast", f > 0.9)
        job.evaluated(1, ("slope", round(lat / 30), day // 90, int(hour) // 4, int(slope) // 15, int(aspect) // 45, round(f, 1), int(math.degrees(zeni)) // 15))
    job.sample(ctx())
    job.sample(sctx())
