"""Workload generators: forcing datasets and snow/ice columns."""
import numpy as np
import xarray as xr


def weather(rng, nt, dt=3600, flavour="mixed", start_hour=0):
    """One cell's forcing as dict of 1-D arrays (physically in range)."""
    h = (start_hour + np.arange(nt) * dt / 3600.0) % 24
    day = np.maximum(0.0, np.sin((h - 6) / 12 * np.pi))
    base = {"cold": 258.0, "winter": 264.0, "mixed": 271.5, "melt": 276.5,
            "hot": 283.0, "rain": 276.0, "hostile": 271.0, "polar": 248.0, "flurries": 273.5, "storm": 271.0, "dump": 275.5}[flavour]
    amp = {"cold": 5, "winter": 5, "mixed": 5, "melt": 4, "hot": 6, "rain": 2,
           "hostile": 14, "polar": 4, "flurries": 4, "storm": 4, "dump": 1.5}[flavour]
    drift = np.cumsum(rng.normal(0, 0.35, nt))
    drift -= np.linspace(0, drift[-1], nt) if nt > 1 else 0
    T2 = base + amp * (day - 0.4) + drift + rng.normal(0, 0.5, nt)
    if flavour == "hostile":
        T2 = base + rng.uniform(-amp, amp, nt) + drift
    T2 = np.clip(T2, 243.5, 312.0)
    RH2 = np.clip(rng.uniform(25, 100) + rng.normal(0, 15, nt), 3.0, 100.0)
    U2 = np.clip(rng.gamma(2.0, rng.uniform(0.6, 2.5), nt), 0.0, 30.0)
    if flavour == "hostile":
        U2[rng.random(nt) < 0.08] = 0.0
        U2[rng.random(nt) < 0.04] = 45.0
        RH2[rng.random(nt) < 0.05] = 100.0
    N = np.clip(rng.beta(0.8, 0.8, nt), 0, 1)
    G = day * rng.uniform(450, 1100) * (1 - 0.6 * N ** 2) * rng.uniform(0.8, 1, nt)
    G = np.where(day > 0, G, 0.0)
    PRES = rng.uniform(520, 850) + rng.normal(0, 2, nt)
    LWin = 5.67e-8 * T2 ** 4 * np.clip(0.62 + 0.3 * N + rng.normal(0, 0.02, nt), 0.5, 1.0)
    LWin = np.clip(LWin, 200.5, 399.0)
    p_rain = {"cold": .2, "winter": .3, "mixed": .25, "melt": .12, "hot": .08,
              "rain": .5, "hostile": .4, "polar": .15, "flurries": .3, "storm": .1, "dump": .3}[flavour]
    RRR = np.where(rng.random(nt) < p_rain, rng.gamma(0.8, 1.4, nt), 0.0)
    if flavour == "hostile":
        RRR[rng.random(nt) < 0.03] = 18.0
    if flavour == "flurries":              # light snow in the cold hours, sun and melt in between
        cycle = np.arange(nt) % int(rng.integers(5, 14)) < 3
        T2 = np.where(cycle, rng.uniform(262, 272), rng.uniform(275, 281))
        G = np.where(cycle, 0.0, rng.uniform(300, 1000))
        RRR = np.where(cycle & (rng.random(nt) < 0.6), rng.uniform(0.3, 1.5, nt), 0.0)
    if flavour == "storm":                 # wet snow, then dry gales that sublimate it
        gale = np.arange(nt) % int(rng.integers(2, 9)) < int(rng.integers(1, 4))
        T2 = np.where(gale, rng.uniform(258, 271, nt), rng.uniform(274, 280, nt))
        G = np.where(gale, 0.0, rng.uniform(100, 800, nt))
        RH2 = np.where(gale, rng.uniform(4, 30, nt), rng.uniform(60, 100, nt))
        U2 = np.where(gale, rng.uniform(12, 30, nt), rng.uniform(0.5, 6, nt))
    RRR = np.clip(RRR, 0, 19.5)
    # solid part, metres of fresh snow, consistent with the total precipitation
    frac = 0.5 * (1 - np.tanh(T2 - 273.16 - 1.0))
    rho_fs = np.maximum(109.0 + 6.0 * (T2 - 273.16) + 26.0 * np.sqrt(U2), 50.0)
    SNOW = np.clip(frac * RRR / rho_fs, 0, 0.0995)
    if flavour == "dump":                  # deep wet snow from air above the melting point
        SNOW = np.where(rng.random(nt) < 0.6, rng.uniform(0.02, 0.0995, nt), 0.0)
        RRR = np.maximum(RRR, np.minimum(SNOW * rho_fs * rng.uniform(1.0, 1.6, nt), 19.9))
        G = G * (rng.random(nt) < 0.3)
    return dict(T2=T2, RH2=RH2, U2=U2, G=G, PRES=PRES, RRR=RRR, N=N, LWin=LWin, SNOWFALL=SNOW)


def forcing(rng, nt, ny=1, nx=1, dt=3600, flavour="mixed", start="2009-01-01T00:00",
            variables=("RRR", "N"), wrf=False, mask=None, slope=None, flavours=None,
            snowheight=None):
    """A model input dataset.  Every cell has its own weather."""
    need = ["T2", "RH2", "U2", "G", "PRES"] + list(variables)
    arr = {k: np.full((nt, ny, nx), np.nan) for k in need}
    start_hour = int(str(np.datetime64(start, "m"))[11:13])
    for y in range(ny):
        for x in range(nx):
            fl = flavours[(y * nx + x) % len(flavours)] if flavours else flavour
            w = weather(rng, nt, dt, fl, start_hour)
            for k in need:
                arr[k][:, y, x] = w[k]
    lat = 30.0 + 0.1 * np.arange(ny)
    lon = 90.0 + 0.13 * np.arange(nx)
    time = np.datetime64(start, "ns") + np.arange(nt) * np.timedelta64(dt, "s")
    dims = ("south_north", "west_east") if wrf else ("lat", "lon")
    ds = xr.Dataset()
    ds.coords["time"] = time
    if wrf:
        la, lo = np.meshgrid(lat, lon, indexing="ij")
        ds.coords["lat"] = (dims, la)
        ds.coords["lon"] = (dims, lo)
    else:
        ds.coords["lat"] = lat
        ds.coords["lon"] = lon
    for k in need:
        ds[k] = (("time",) + dims, arr[k])
    ds["HGT"] = (dims, 4000.0 + 700 * rng.random((ny, nx)))
    m = np.ones((ny, nx)) if mask is None else np.asarray(mask, float)
    if (m == 0).any() and rng.random() < 0.4:
        m = np.where(m == 0, np.nan, m)  # static files leave cells outside the glacier empty
    ds["MASK"] = (dims, m)
    if slope is not False:
        s = rng.uniform(0, 40, (ny, nx)) if slope is None else np.full((ny, nx), float(slope))
        ds["SLOPE"] = (dims, s)
        ds["ASPECT"] = (dims, rng.uniform(0, 360, (ny, nx)))
    if snowheight is not None:
        ds["SNOWHEIGHT"] = (dims, np.broadcast_to(np.asarray(snowheight, float), (ny, nx)).copy())
    return ds


def cell(ds, y=0, x=0):
    if "south_north" in ds.dims:
        return ds.isel(south_north=y, west_east=x)
    return ds.isel(lat=y, lon=x)


# --------------------------------------------------------------------------
def column(rng, flavour=None, nsnow=None, nice=None, C=None):
    """A random column state: dict of arrays h, T, lwc, ifr (fractions).

    Snow layers on top of ice layers; temperatures <= melting point.
    """
    flavour = flavour or rng.choice(["dry", "wet", "mixed", "thin", "warm", "deep", "bare", "firn", "sat"])
    nsnow = int(rng.integers(1, 12)) if nsnow is None else nsnow
    nice = int(rng.integers(3, 16)) if nice is None else nice
    if flavour == "bare":
        nsnow = 0
    if flavour == "deep":
        nsnow = int(rng.integers(12, 30))
    zt = 273.16
    hs = rng.uniform(0.01, 0.35, nsnow)
    if flavour == "thin":
        hs = rng.uniform(0.0012, 0.02, nsnow)
    if flavour == "firn":
        ifs = rng.uniform(0.6, 0.93, nsnow)
    else:
        ifs = np.sort(rng.uniform(0.06, 0.75, nsnow))
        if rng.random() < 0.35:
            rng.shuffle(ifs)
    hi = rng.uniform(0.05, 0.8, nice)
    ifi = np.where(rng.random(nice) < 0.7, 1.0, rng.uniform(0.985, 1.0, nice))
    if flavour == "bare":
        hi[0] = rng.uniform(0.01, 0.3)
    n = nsnow + nice
    h = np.concatenate([hs, hi])
    ifr = np.concatenate([ifs, ifi])
    # ice layers of fresh grids: density 917 via the density constructor
    T = zt - rng.gamma(1.5, 4.0, n)
    if flavour in ("warm", "sat"):
        T = zt - np.where(rng.random(n) < 0.6, 0.0, rng.gamma(1.0, 0.6, n))
    T = np.maximum(T, 225.0)
    lwc = np.zeros(n)
    por = np.maximum(0.0, 1 - ifr)
    if flavour == "wet":
        lwc = rng.uniform(0, 0.12, n) * (por > 0.12)
    elif flavour == "sat":
        lwc = por * rng.uniform(0.2, 0.9, n)
    elif flavour in ("mixed", "warm", "thin", "firn", "deep"):
        lwc = np.where(rng.random(n) < 0.5, rng.uniform(0, 0.08, n), 0.0)
    lwc = np.minimum(lwc, 0.95 * por)
    # keep ice layers dry and ice
    lwc[nsnow:] = 0.0
    # keep snow layers below the snow/ice threshold of 900 kg m-3
    dens = ifr * 917 + lwc * 1000 + np.maximum(0, 1 - ifr - lwc) * 1.1
    bad = (dens >= 895) & (np.arange(n) < nsnow)
    lwc[bad] = 0.0
    ifr[bad] = np.minimum(ifr[bad], 0.95)
    if nsnow > 2 and rng.random() < 0.08:      # refrozen lenses within the snow
        for k in rng.integers(1, nsnow - 1, int(rng.integers(1, 3))):
            h[k], ifr[k], lwc[k] = rng.uniform(0.003, 0.05), rng.uniform(0.985, 1.0), 0.0
    return dict(h=h, T=T, lwc=lwc, ifr=ifr, flavour=str(flavour), nsnow=nsnow,
                props=(float(rng.choice([0.0, rng.uniform(0, .3)])), float(rng.integers(0, 4000)) * 900.0,
                       float(rng.integers(0, 4000)) * 900.0))


def make_grid(col):
    """Build a real Grid in the given state."""
    from cosipy.cpkernel.grid import Grid

    dens = col["ifr"] * 917 + col["lwc"] * 1000
    return Grid(
        np.array(col["h"], dtype=np.float64), np.array(dens, dtype=np.float64),
        np.array(col["T"], dtype=np.float64), np.array(col["lwc"], dtype=np.float64),
        np.array(col["ifr"], dtype=np.float64), *[float(v) for v in col["props"]],
    )


def snap(g):
    """Complete observable state of a Grid, read through its public getters."""
    return dict(
        h=np.array(g.get_height(), float), T=np.array(g.get_temperature(), float),
        lwc=np.array(g.get_liquid_water_content(), float),
        ifr=np.array(g.get_ice_fraction(), float),
        n=int(g.get_number_layers()),
        props=tuple(float(v) for v in g.get_fresh_snow_props()),
        refr=np.array(g.get_refreeze(), float),
    )


def signature(col, digits=3):
    return (len(col["h"]), tuple(np.round(col["h"], digits)), tuple(np.round(col["T"], 1)),
            tuple(np.round(col["lwc"], 3)), tuple(np.round(col["ifr"], 2)))
