"""Independent reference for sun position and terrain radiation (C28, C30, C34).  Vectors are (east, north, up)."""
import math

import numpy as np


def noaa(day, hour):
    """Declination [rad] and equation of time [min] after NOAA's general solar position calculations."""
    g = 2 * math.pi / 365 * (day - 1 + (hour - 12) / 24)
    dec = (0.006918 - 0.399912 * math.cos(g) + 0.070257 * math.sin(g) - 0.006758 * math.cos(2 * g)
           + 0.000907 * math.sin(2 * g) - 0.002697 * math.cos(3 * g) + 0.00148 * math.sin(3 * g))
    eot = 229.18 * (0.000075 + 0.001868 * math.cos(g) - 0.032077 * math.sin(g) - 0.014615 * math.cos(2 * g) - 0.040849 * math.sin(2 * g))
    return dec, eot


def vector(lat, dec, ha):
    """Sun vector for an hour angle `ha` [rad], negative before noon."""
    p = math.radians(lat)
    return np.array([-math.cos(dec) * math.sin(ha),
                     math.sin(dec) * math.cos(p) - math.cos(dec) * math.sin(p) * math.cos(ha),
                     math.sin(dec) * math.sin(p) + math.cos(dec) * math.cos(p) * math.cos(ha)])


def sun(lat, lon, tz_lon, day, hour):
    """Sun vector at a local standard time."""
    dec, eot = noaa(day, hour)
    ha = math.radians(15 * (hour - 12 + eot / 60 + (lon - tz_lon) / 15))
    return vector(lat, dec, ha), ha


def normal(slope, aspect):
    """Surface normal; aspect clockwise from north [deg]."""
    s, a = np.radians(slope), np.radians(aspect)
    return np.stack([np.sin(s) * np.sin(a), np.sin(s) * np.cos(a), np.cos(s) * np.ones_like(a)], axis=-1)


def angle(a, b):
    return math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), float(np.dot(a, b))))


def diffuse_fraction(day, cosz, rg):
    ci = rg / (1367.0 * (1 + 0.033 * math.cos(2 * math.pi * day / 366.0)) * cosz)
    if ci > 50:
        return 0.2465
    return math.exp(-math.exp(0.1001 - 4.7930 + 9.4758 * ci)) * (1 - 0.2465) + 0.2465


def wohlfahrt(day, s, slope, aspect_south, rg, thld):
    """Radiation on a slope (aspect: south 0, west positive) with the sun at vector s."""
    z = math.acos(max(-1.0, min(1.0, s[2])))
    f = 1.0 if z > math.radians(thld) else diffuse_fraction(day, s[2], rg)
    cf = float(np.dot(normal(slope, aspect_south + 180.0), s)) / s[2]
    return rg * (1 - f) * cf + rg * f


def moelg(sv, ecc, temp, pres, rh, cld, z, slope, aspect, shade, svf):
    """All-sky radiation after Moelg et al. (2009) for a sun vector sv (already above the horizon)."""
    import metpy.calc
    from metpy.units import units

    sin_h = sv[2]
    w = metpy.calc.mixing_ratio_from_relative_humidity(pres * units.hPa, temp * units.kelvin, rh / 100 * units.dimensionless)
    e = np.asarray(metpy.calc.vapor_pressure(pres * units.hPa, w).to("hPa").magnitude)
    m = 35 / math.sqrt(1224 * sin_h ** 2 + 1)
    mp = pres / 1013.25 * m
    tr = np.exp(-0.09030 * mp ** 0.84 * (1 + mp - mp ** 1.01))
    tg = math.exp(-0.0127 * m ** 0.26)
    ta = np.minimum(2.4845e-5 * z + 0.87764, 1.0) ** m
    taa = 1 - 0.1 * (1 - mp + mp ** 1.06) * (1 - ta)
    x = 46.5 * e / temp * m
    tw = 1 - 2.4959 * x / ((1 + 79.034 * x) ** 0.6828 + 6.385 * x)
    tau = tr * tg * ta * tw
    s0 = 1367 * ecc
    dcs = 0.66 * s0 * sin_h * tg * tw * taa * (1 - tr * ta / taa) / (1 - mp + mp ** 1.02)
    grcs = s0 * sin_h * tau + dcs
    inc = np.maximum((normal(slope, aspect) * sv).sum(-1), 0.0)
    direct = np.where(shade == 0, 0.0, s0 * inc * tau)
    diff = np.where(cld > 0, grcs * ((35 - 4.6) / 100 * cld + 0.046), dcs) * svf
    return direct * (1 - cld) + diff, direct, diff


def bracket(dem, lats, lons, i, j, az, reach):
    """Bounds of the horizon angle [deg] seen from cell (i, j) towards azimuth az (clockwise from north, on the lat/lon
    plane), from the extremes of the terrain within `reach` cells of the ray.  lats descending, lons ascending."""
    ny, nx = dem.shape
    dla, dlo = abs(lats[0] - lats[1]), abs(lons[1] - lons[0])
    step = min(dla, dlo) / 4
    b = math.radians(90 - az)
    uy, ux = math.sin(b), math.cos(b)
    lo, hi = -90.0, -90.0
    run, need = [], math.ceil(2.0 * max(dla, dlo) / step)
    k = 0
    while True:
        k += 1
        la, lo_ = lats[i] + uy * step * k, lons[j] + ux * step * k
        fy, fx = (lats[0] - la) / dla, (lo_ - lons[0]) / dlo
        if fy < 0 or fx < 0 or fy > ny - 1 or fx > nx - 1:
            break
        p1, p2 = math.radians(lats[i]), math.radians(la)
        a = math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(math.radians(lo_ - lons[j]) / 2) ** 2
        d = 2 * 6371000 * math.asin(math.sqrt(a))
        iy, ix = int(round(fy)), int(round(fx))
        y0, y1, x0, x1 = max(iy - reach, 0), iy + reach + 1, max(ix - reach, 0), ix + reach + 1
        w = dem[y0:y1, x0:x1]
        n = k * step
        if n >= 0.6 * min(dla, dlo):
            hi = max(hi, math.degrees(math.atan2(w.max() - dem[i, j], d)))
        inside = 1 <= fy <= ny - 2 and 1 <= fx <= nx - 2
        if n >= 2.5 * max(dla, dlo) and inside:
            # the terrain must stay that high along a whole step of the search
            lo_here = math.degrees(math.atan2(w.min() - dem[i, j], d))
            run = (run + [lo_here])[-need:]
            if len(run) == need:
                lo = max(lo, min(run))
    return lo, hi
