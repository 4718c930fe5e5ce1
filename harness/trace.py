"""Runs the real column model on one cell and records the trace of everything
it reports; `walk` predicts every step from the previous reported state."""
import numpy as np

from harness import gen, ref

NAMES = ("indY indX RESTART RAIN SNOWFALL LWin LWout H LE B QRR MB surfMB Q SNOWHEIGHT "
         "TOTALHEIGHT TS ALBEDO NLAYERS ME intMB EVAPORATION SUBLIMATION CONDENSATION "
         "DEPOSITION REFREEZE subM Z0 surfM NEWH NEWT OLDT MOL LAYER_HEIGHT LAYER_RHO "
         "LAYER_T LAYER_LWC LAYER_CC LAYER_POROSITY LAYER_ICE_FRACTION LAYER_IRREDUCIBLE_WATER "
         "LAYER_REFREEZE stake_names stat df").split()
SCALARS = ("RAIN SNOWFALL LWin LWout H LE B QRR MB surfMB Q SNOWHEIGHT TOTALHEIGHT TS ALBEDO "
           "NLAYERS ME intMB EVAPORATION SUBLIMATION CONDENSATION DEPOSITION REFREEZE subM Z0 "
           "surfM NEWH NEWT OLDT").split()


def run(cell_ds, restart=None, **kw):
    """One cell through the real model; dict of everything it returned."""
    import cosipy.cpkernel.cosipy_core as cc

    r = cc.cosipy_core(cell_ds, 0, 0, GRID_RESTART=restart, **kw)
    return dict(zip(NAMES, r))


def restart_of(c, C):
    """What a restart file holds for a cell with column `c`."""
    import xarray as xr

    n = len(c["h"])
    pad = lambda x: ("layer", np.r_[np.asarray(x, float), np.full(200 - n, np.nan)])
    return xr.Dataset(dict(
        NLAYERS=n, NEWSNOWHEIGHT=c["props"][0], NEWSNOWTIMESTAMP=c["props"][1], OLDSNOWTIMESTAMP=c["props"][2],
        LAYER_HEIGHT=pad(c["h"]), LAYER_RHO=pad(ref.density(c, C)), LAYER_T=pad(c["T"]), LAYER_LWC=pad(c["lwc"]),
        LAYER_IF=pad(c["ifr"])))


def state(tr, t):
    """Column state reported at the end of step t (needs full fields)."""
    n = int(tr["NLAYERS"][t])
    f = lambda k: np.array(tr[k][t, :n], float)
    return ref.col(f("LAYER_HEIGHT"), f("LAYER_T"), f("LAYER_LWC"), f("LAYER_ICE_FRACTION"),
                   (tr["NEWH"][t], tr["NEWT"][t], tr["OLDT"][t]))


def get(ds, name, t):
    return float(ds[name].values[t]) if name in ds else None


def step(s, mem, ds, t, TS, C, cfg, slope=None):
    """Reference prediction of step t from state s.  `TS` is the surface
    temperature the code found (its root property is judged separately).
    Returns (outputs, final state, memory, stages)."""
    dt = C["dt"]
    T2, RH2, PRES, U2 = (get(ds, k, t) for k in ("T2", "RH2", "PRES", "U2"))
    G = max(get(ds, "G", t), 0.0)
    RRR, SN = get(ds, "RRR", t), get(ds, "SNOWFALL", t)
    LW, N = get(ds, "LWin", t), get(ds, "N", t)
    if cfg["FORCINGS"]["force_use_TP"]:
        SN = None
    if cfg["FORCINGS"]["force_use_N"]:
        LW = None
    slope = float(ds["SLOPE"].values) if "SLOPE" in ds else 0.0
    o, st = {}, {}
    snow, rain, rho, snow_raw, rain_raw = ref.partition(T2, U2, RRR, SN, C)
    o["SNOWFALL"], o["RAIN"] = snow * rho / C["water_density"], rain
    st["margin"] = (snow_raw, rain_raw, rho)
    s = ref.add_snow(s, snow, rho, T2, dt, C)
    st["fresh"] = s
    s = ref.remesh(s, C)
    st["mesh"] = s
    alpha, a_snow, props = ref.albedo(s, mem["Ts"], mem["a_snow"], C)
    s = ref.copy(s)
    s["props"] = props
    o["ALBEDO"] = alpha
    o["Z0"] = ref.roughness(s, C)
    swn = G * (1 - alpha)
    o["subM"], pen = 0.0, 0.0
    if swn > 0:
        s, o["subM"], pen = ref.penetrating(s, swn, dt, C)
    st["irradiated"] = s
    sw = swn - pen
    fx = ref.fluxes(s, TS, dt, C["z"], o["Z0"], T2, RH2, PRES, U2, rain, slope, C, LW, N)
    st["flux_args"] = (s, dt, C["z"], o["Z0"], T2, RH2, PRES, U2, rain, slope, LW, N, sw)
    for k in ("LWin", "LWout", "H", "LE", "B", "QRR"):
        o[k] = fx[k]
    st["MOL"] = fx["MOL"]
    st["balance"] = sw + sum(fx[k] for k in ("LWin", "LWout", "H", "LE", "B", "QRR"))
    o["ME"] = max(0.0, st["balance"])
    s = ref.copy(s)
    s["T"][0] = TS
    o.update(ref.mass_fluxes(TS, fx["LE"], dt, C))
    o["surfM"] = o["ME"] * dt / (1000.0 * C["lat_heat_melting"])
    st["melt_margin"] = s
    s, freed = ref.remove_melt(s, o["surfM"] - o["SUBLIMATION"] - o["DEPOSITION"], C)
    st["freed"] = freed
    st["melted"] = s
    s, o["Q"] = ref.percolate(s, o["surfM"] + o["CONDENSATION"] + rain / 1000.0 + freed)
    st["percolated"] = s
    s, refr = ref.refreeze(s, C)
    o["REFREEZE"] = float(refr.sum())
    st["refr"] = refr
    s = ref.heat(s, dt, C)
    s = ref.densify(s, slope, dt, C)
    o["surfMB"] = o["SNOWFALL"] - o["surfM"] + o["SUBLIMATION"] + o["DEPOSITION"] + o["EVAPORATION"]
    o["intMB"] = o["REFREEZE"] - o["subM"]
    o["MB"] = o["surfMB"] + o["intMB"]
    o["TOTALHEIGHT"] = float(s["h"].sum())
    o["SNOWHEIGHT"] = ref.snowheight(s, C)
    o["NLAYERS"] = len(s["h"])
    o["NEWH"], o["NEWT"], o["OLDT"] = s["props"]
    return o, s, dict(a_snow=a_snow, Ts=TS), st


def start(ds, C, job=None):
    snow = ds["SNOWHEIGHT"].values.item() if "SNOWHEIGHT" in ds else C["initial_snowheight_constant"]
    s = ref.initial(float(ds["T2"].values[0]), snow, C)
    return s, dict(a_snow=C["albedo_fresh_snow"], Ts=270.0)


def walk(job, ds, tr, s0=None, mem=None, start_state=None):
    """Yield (t, actual outputs, expected outputs, actual end state, expected
    end state, stages) for every step of the trace."""
    s, m = start(ds, job.C)
    s = tr.get("START", s)              # (resumed from an aged column)
    if start_state is not None:
        s = start_state
    if mem is not None:
        m = mem
    for t in range(len(ds["time"])):
        TS = float(tr["TS"][t])
        exp, end, m, st = step(s, m, ds, t, TS, job.C, job.cfg)
        act = {k: float(tr[k][t]) for k in SCALARS}
        now = state(tr, t)
        st["before"] = s
        yield t, act, exp, now, end, st
        s = now


FORCING_SETS = (("RRR", "N"), ("RRR", "LWin"), ("SNOWFALL", "RRR", "N"), ("SNOWFALL", "LWin"),
                ("SNOWFALL", "RRR", "LWin"), ("RRR", "LWin", "N"))


def random_case(job, nt, flavour=None, variables=None, **kw):
    rng = job.rng
    fl = flavour or str(rng.choice(["cold", "winter", "mixed", "melt", "hot", "rain", "hostile", "polar", "flurries", "storm", "dump"]))
    var = variables or FORCING_SETS[int(rng.integers(len(FORCING_SETS)))]
    sh = kw.pop("snowheight", "rand")
    if sh == "rand":
        sh = float(rng.choice([0.0, 0.05, rng.uniform(0.1, 0.5), rng.uniform(0.5, 3.0)]))
    start = f"2009-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 28)):02d}T{int(rng.integers(24)):02d}:00"
    ds = gen.forcing(rng, nt, flavour=fl, variables=var, dt=job.C["dt"], start=start,
                     snowheight=sh, **kw)
    return gen.cell(ds), dict(flavour=fl, variables=var, snowheight=sh, start=start, nt=nt)
