"""C20 fidelity of the output file."""
import numpy as np

from checks.c01 import equal, make, stamp
from checks.common import VARIANTS
from harness import e2e, gen, trace

RULE = ("end-to-end runs over random domains, forcing sets, output selections, option sets and compression levels; every "
        "variable of the written file compared bitwise with the column model run directly on that cell, inputs with the "
        "input file, units/names/attributes with the documented table. Distinct by case and selection.")
REQUIRED = {"cases": 12, "selections": 10, "no_full": 3, "full": 3, "wrf": 3, "no_RRR": 2, "no_N": 2, "inputs": 60, "outputs": 100, "overwritten": 4}

W = "W m\u207b\xb2"
ATM = {"RAIN": ("mm", "Liquid precipitation"), "SNOWFALL": ("m w.e.", "Snowfall"), "LWin": (W, "Incoming longwave radiation"),
       "LWout": (W, "Outgoing longwave radiation"), "H": (W, "Sensible heat flux"), "LE": (W, "Latent heat flux"),
       "B": (W, "Ground heat flux"), "QRR": (W, "Rain heat flux"), "Z0": ("m", "Roughness length"), "ALBEDO": ("-", "Albedo"),
       "TS": ("K", "Surface temperature")}
INT = {"ME": (W, "Available melt energy"), "MB": ("m w.e.", "Mass balance"), "surfMB": ("m w.e.", "Surface mass balance"),
       "intMB": ("m w.e.", "Internal mass balance"), "EVAPORATION": ("m w.e.", "Evaporation"),
       "SUBLIMATION": ("m w.e.", "Sublimation"), "CONDENSATION": ("m w.e.", "Condensation"),
       "DEPOSITION": ("m w.e.", "Deposition"), "surfM": ("m w.e.", "Surface melt"), "subM": ("m w.e.", "Subsurface melt"),
       "Q": ("m w.e.", "Runoff"), "REFREEZE": ("m w.e.", "Refreezing"), "SNOWHEIGHT": ("m", "Snowheight"),
       "TOTALHEIGHT": ("m", "Total domain height"), "LAYERS": ("-", "Number of layers"), "MOL": ("m", "Monin Obukhov length")}
FULLV = {"HEIGHT": ("m", "Layer height"), "RHO": ("kg m^-3", "Layer density"), "T": ("K", "Layer temperature"),
         "LWC": ("kg m^-2", "layer liquid water content"), "CC": ("J m^-2", "Cold content"), "POROSITY": ("-", "Porosity"),
         "ICE_FRACTION": ("-", "Layer ice fraction"), "IRREDUCIBLE_WATER": ("-", "Irreducible water"),
         "REFREEZE": ("m w.e.", "Refreezing")}
SPATIAL = {"HGT": ("m", "Elevation"), "MASK": ("boolean", "Glacier mask"), "SLOPE": ("degrees", "Terrain slope"),
           "ASPECT": ("degrees", "Aspect of slope")}
FORC = {"T2": ("K", "Air temperature at 2 m"), "RH2": ("%", "Relative humidity at 2 m"),
        "U2": ("m s\u207b\xb9", "Wind velocity at 2 m"), "PRES": ("hPa", "Atmospheric pressure"),
        "G": (W, "Incoming shortwave radiation"), "RRR": ("mm", "Total precipitation"), "SNOWFALL": ("m", "Snowfall"),
        "N": ("-", "Cloud fraction"), "LWin": (W, "Incoming longwave radiation")}
ATTRS_CFG = {"Start_from_restart_file": "restart", "Stake_evaluation": "stake_evaluation", "WRF_simulation": "WRF",
             "Compression_level": "compression_level", "Slurm_use": "slurm_use", "Full_field": "full_field",
             "Force_use_TP": "force_use_TP", "Force_use_N": "force_use_N", "Tile_of_glacier_of_interest": "tile"}
ATTRS_CON = {"Time_step_input_file_seconds": "dt", "Max_layers": "max_layers", "Z_measurement_height": "z",
             "Stability_correction": "stability_correction", "Albedo_method": "albedo_method",
             "Densification_method": "densification_method", "Penetrating_method": "penetrating_method",
             "Roughness_method": "roughness_method", "Saturation_water_vapour_method": "saturation_water_vapour_method",
             "Initial_snowheight": "initial_snowheight_constant", "Initial_snow_layer_heights": "initial_snow_layer_heights",
             "Initial_glacier_height": "initial_glacier_height", "Initial_glacier_layer_heights": "initial_glacier_layer_heights",
             "Initial_top_density_snowpack": "initial_top_density_snowpack",
             "Initial_bottom_density_snowpack": "initial_bottom_density_snowpack", "Temperature_bottom": "temperature_bottom",
             "Const_init_temp": "const_init_temp", "Center_snow_transfer_function": "center_snow_transfer_function",
             "Spread_snow_transfer_function": "spread_snow_transfer_function",
             "Multiplication_factor_for_RRR_or_SNOWFALL": "mult_factor_RRR",
             "Minimum_snow_layer_height": "minimum_snow_layer_height", "Minimum_snowfall": "minimum_snowfall",
             "Remesh_method": "remesh_method", "First_layer_height_log_profile": "first_layer_height",
             "Layer_stretching_log_profile": "layer_stretching", "Merge_max": "merge_max",
             "Density_threshold_merging": "density_threshold_merging",
             "Temperature_threshold_merging": "temperature_threshold_merging", "Density_fresh_snow": "constant_density",
             "Albedo_fresh_snow": "albedo_fresh_snow", "Albedo_firn": "albedo_firn", "Albedo_ice": "albedo_ice",
             "Albedo_mod_snow_aging": "albedo_mod_snow_aging", "Albedo_mod_snow_depth": "albedo_mod_snow_depth",
             "Roughness_fresh_snow": "roughness_fresh_snow", "Roughness_ice": "roughness_ice", "Roughness_firn": "roughness_firn",
             "Aging_factor_roughness": "aging_factor_roughness", "Snow_ice_threshold": "snow_ice_threshold",
             "lat_heat_melting": "lat_heat_melting", "lat_heat_vaporize": "lat_heat_vaporize",
             "lat_heat_sublimation": "lat_heat_sublimation", "spec_heat_air": "spec_heat_air", "spec_heat_ice": "spec_heat_ice",
             "spec_heat_water": "spec_heat_water", "k_i": "k_i", "k_w": "k_w", "k_a": "k_a", "water_density": "water_density",
             "ice_density": "ice_density", "air_density": "air_density", "sigma": "sigma", "zero_temperature": "zero_temperature",
             "Surface_emission_coeff": "surface_emission_coeff"}
NAMES = ["default", "MO", "physics", "tuned", "bougamont", "vionnet", "dt3h"]


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"file-{v}-{c}", func="files", constants=VARIANTS[v], budget_s=13 if q else 110, timeout_s=600,
                 params=dict(variant=v)) for c in range(1 if q else 3) for v in NAMES]


def pick(rng, names, none=0.1):
    if rng.random() < none:
        return []
    k = int(rng.integers(1, len(names) + 1))
    return [str(x) for x in rng.permutation(list(names))[:k]]


def meta(job, ds, name, want, ctx):
    got = (ds[name].attrs.get("units"), ds[name].attrs.get("long_name"))
    job.expect(got == want, "metadata", f"{name}: units/name {got}, documented {want}", ctx)


def files(job):
    rng = job.rng
    n = 0
    while job.time_left() > 0 or n < 2:
        wrf = n % 3 == 1
        n += 1
        nt = int(rng.integers(3, 14))
        kw = {}
        if rng.random() < 0.2:
            kw["slope"] = False
        ds = make(job, nt, wrf, 4, 4, **kw)
        if rng.random() < 0.3:
            for v in ("T2", "RH2", "G"):
                ds[v] = ds[v].astype("float32").astype("float64")
        t = ds.time.values
        full = bool(rng.random() < 0.5)
        default = rng.random() < 0.25
        atm = list(ATM) + ["T2", "RH2", "G", "U2", "PRES", "RRR", "N"]
        sel_a, sel_i, sel_f = (list(ATM), [x for x in INT if x != "MOL"], list(FULLV)) if default else \
            (pick(rng, atm), pick(rng, INT), pick(rng, FULLV))
        cfg = {"SIMULATION_PERIOD": {"time_start": stamp(t[0]), "time_end": stamp(t[-1])},
               "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": str(rng.choice(["x", "my_run", "a.b"]))},
               "DIMENSIONS": {"WRF": wrf}, "FULL_FIELDS": {"full_field": full}, "RESTART": {"restart": False},
               "COMPRESSION": {"compression_level": int(rng.integers(1, 10))},
               "FORCINGS": {"force_use_N": "N" in ds and bool(rng.random() < 0.2),
                            "force_use_TP": "RRR" in ds and bool(rng.random() < 0.2)},
               "OUTPUT_VARIABLES": dict(output_atm=",".join(sel_a), output_internal=",".join(sel_i), output_full=",".join(sel_f))}
        if rng.random() < 0.4:          # an earlier run of the same name, written with another selection
            was = dict(cfg, FULL_FIELDS={"full_field": not full},
                       OUTPUT_VARIABLES=dict(output_atm=",".join(pick(rng, atm)), output_internal=",".join(pick(rng, INT)),
                                             output_full=",".join(pick(rng, FULLV))))
            before = ds.copy(deep=True)
            before["T2"] = before["T2"] - 3.0
            e2e.ok(job, e2e.run_main(job, was, input_ds=before))
            job.count("overwritten")
        o = e2e.ok(job, e2e.run_main(job, cfg, input_ds=ds))
        R = o.result
        job.count("cases")
        job.count("selections", not default)
        job.count("full" if full else "no_full")
        job.count("wrf", wrf)
        job.count("no_RRR", "RRR" not in ds)
        job.count("no_N", "N" not in ds)
        ctx = lambda: {"steps": nt, "shape": ds.MASK.shape, "wrf": wrf, "full": full, "atm": sel_a, "internal": sel_i,
                       "layers": sel_f, "forcing": sorted(ds.data_vars), "file": o.result_path.name}
        want_name = f"{cfg['FILENAMES']['output_prefix']}_{stamp(t[0])[:10].replace('-', '')}-{stamp(t[-1])[:10].replace('-', '')}.nc"
        job.expect(o.result_path.name == want_name, "file-name", f"output file {o.result_path.name}, expected {want_name}", ctx)
        job.expect(o.restart_path is not None and o.restart_path.name == "restart_" + stamp(t[-1]).replace(":", "-") + ".nc",
                   "restart-name", "restart file name", ctx)
        # what is in the file
        model = {v: v for v in sel_a if v in ATM} | {v: v for v in sel_i}
        lay = {"LAYER_" + v: v for v in sel_f} if full else {}
        expected = (set(SPATIAL) | set(FORC)) & set(ds.data_vars) | {"RRR", "N"} | set(model) | set(lay)
        job.expect(set(R.data_vars) == expected, "variables",
                   lambda: f"output lacks {sorted(expected - set(R.data_vars))} / has extra {sorted(set(R.data_vars) - expected)}", ctx)
        job.expect(equal(R.time.values, t) and equal(R.lat.values, ds.lat.values) and equal(R.lon.values, ds.lon.values),
                   "coordinates", "coordinates of the output differ from the input", ctx)
        for v, m in list(SPATIAL.items()) + list(FORC.items()):
            if v in R and v not in model:
                meta(job, R, v, m, ctx)
                job.count("inputs")
                if v in ds:
                    job.expect(R[v].dims == ds[v].dims and equal(R[v].values, ds[v].values), "input-copy",
                               f"{v} in the output is not the input field", ctx)
                else:
                    job.expect(R[v].dims == ds.T2.dims and np.all(np.isnan(R[v].values)), "input-absent",
                               f"{v}, absent from the input, is not empty in the output", ctx)
        for v in model:
            if v in R:
                meta(job, R, v, (ATM if v in ATM and v in sel_a else INT)[v], ctx)
        for v, k in lay.items():
            if v in R:
                meta(job, R, v, FULLV[k], ctx)
                job.expect(R[v].dims == ds.T2.dims + ("layer",) and R[v].shape[-1] == job.C["max_layers"], "layers",
                           f"{v} has dimensions {R[v].dims} {R[v].shape}", ctx)
        # values
        from cosipy.config import Config  # noqa: F401
        for y in range(ds.MASK.shape[0]):
            for x in range(ds.MASK.shape[1]):
                if ds.MASK.values[y, x] != 1:
                    bad = [v for v in list(model) + list(lay) if v in R and not np.all(np.isnan(R[v].values[:, y, x]))]
                    job.expect(not bad, "outside", f"values outside the mask: {bad[:5]}", ctx)
                    continue
                if rng.random() < 0.6 and (y or x):
                    continue
                tr = trace.run(gen.cell(ds, y, x))
                for v in list(model) + list(lay):
                    if v not in R:
                        continue
                    b = tr["NLAYERS" if v == "LAYERS" else v]
                    job.count("outputs")
                    job.expect(b is not None and equal(R[v].values[:, y, x], np.asarray(b, float)), "value",
                               f"{v} at cell ({y},{x}) is not what the column model produced", ctx)
        # attributes
        for a, k in ATTRS_CFG.items():
            want = next(tb[k] for tb in o.cfg.values() if k in tb)
            want = want if a == "Compression_level" else str(want)
            job.expect(a in R.attrs and R.attrs[a] == want, "attribute", lambda: f"attribute {a}={R.attrs.get(a)!r}, setting is {want!r}", ctx)
        for a, k in ATTRS_CON.items():
            job.expect(a in R.attrs and R.attrs[a] == job.C[k], "attribute",
                       lambda: f"attribute {a}={R.attrs.get(a)!r}, setting is {job.C[k]!r}", ctx)
        enc = {v: o.cfg["COMPRESSION"]["compression_level"] for v in ()}
        del enc
        job.evaluated(len(expected) * 2 + len(ATTRS_CON), (stamp(t[0]), wrf, full, tuple(sel_a), tuple(sel_i), tuple(sel_f)))
        job.sample(ctx())
        for p in list(e2e.datadir(job).rglob("*.nc")):
            p.unlink()
