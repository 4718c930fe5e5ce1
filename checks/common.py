"""Shared pieces of the column-model checks."""
import numpy as np

from harness import gen, ref, trace

FULL = {"FULL_FIELDS": {"full_field": True}}

# constants configurations the stage and trace monitors are run under
VARIANTS = {
    "default": {},
    "adaptive": {"remesh_method": "adaptive_profile"},
    "adaptive-loose": {"remesh_method": "adaptive_profile", "merge_max": 5,
                       "temperature_threshold_merging": 1.0, "density_threshold_merging": 50},
    "MO": {"stability_correction": "MO"},
    "bougamont": {"albedo_method": "Bougamont05"},
    "vionnet": {"densification_method": "Vionnet"},
    "empirical": {"densification_method": "empirical"},
    "constant": {"densification_method": "constant", "constant_density": 250.0},
    "dt900": {"dt": 900},
    "dt3h": {"dt": 10800},
    "dt-day": {"dt": 86400},
    "k-empirical": {"thermal_conductivity_method": "empirical"},
    "newton": {"sfc_temperature_method": "Newton"},
    "slsqp": {"sfc_temperature_method": "SLSQP"},
    "lbfgsb": {"sfc_temperature_method": "L-BFGS-B"},
    "coarse": {"first_layer_height": 0.05, "layer_stretching": 1.05,
               "initial_glacier_height": 10.0, "initial_glacier_layer_heights": 0.3},
    "tuned": {"minimum_snow_layer_height": 0.004, "minimum_snowfall": 0.005,
              "center_snow_transfer_function": 0.0, "spread_snow_transfer_function": 2.0,
              "mult_factor_RRR": 1.7, "snow_ice_threshold": 830.0, "z": 3.5,
              "ice_density": 910.0, "air_density": 1.2, "water_density": 1000.0},
    "physics": {"albedo_fresh_snow": 0.9, "albedo_firn": 0.6, "albedo_ice": 0.2,
                "albedo_mod_snow_aging": 6, "albedo_mod_snow_depth": 8, "t_star_wet": 15,
                "t_star_dry": 25, "t_star_K": 9, "t_star_cutoff": 260.0,
                "roughness_fresh_snow": 0.3, "roughness_ice": 2.1, "roughness_firn": 1.0,
                "aging_factor_roughness": 0.02, "zlt1": 0.08, "zlt2": 0.2,
                "surface_emission_coeff": 0.97, "temperature_bottom": 265.0,
                "initial_top_density_snowpack": 250.0, "initial_bottom_density_snowpack": 500.0,
                "lat_heat_melting": 3.3e5, "spec_heat_ice": 2100.0, "k_i": 2.1, "k_a": 0.03},
}


def specs(names, func, tier, budget=(12, 90), mode="interp", params=None, copies=(1, 3), **kw):
    """One job per constants variant (several seeds in the thorough tier)."""
    out = []
    for c in range(copies[0] if tier == "quick" else copies[1]):
        for v in names:
            out.append(dict(name=f"{func}-{v}-{c}", func=func, mode=mode,
                            constants=VARIANTS[v], config=FULL,
                            budget_s=budget[0] if tier == "quick" else budget[1],
                            timeout_s=200 if tier == "quick" else 500,
                            params=dict(params or {}, variant=v), **kw))
    return out


def columns(job, n=10 ** 9, **kw):
    """Random columns until the budget is used."""
    i = 0
    while i < n and (job.time_left() > 0 or i < 20):
        c = gen.column(job.rng, **kw)
        yield i, c
        i += 1


def as_ref(c):
    return ref.col(c["h"], c["T"], c["lwc"], c["ifr"], c["props"])


def grid_ref(g):
    s = gen.snap(g)
    return ref.col(s["h"], s["T"], s["lwc"], s["ifr"], s["props"])


def bucket(x, edges):
    return int(np.searchsorted(edges, x))


def aged(job, flavour=None):
    """A random column (ice lenses, saturated, bare, many layers) on a glacier that lasts."""
    c = gen.column(job.rng, flavour)
    if flavour == "wet":                   # a light wet snow cover
        k = min(c["nsnow"], 3)
        c["ifr"][:k], c["lwc"][:k], c["T"][:k] = job.rng.uniform(0.06, 0.2, k), job.rng.uniform(0.01, 0.1, k), 273.16
    c["h"][-1] = 25.0
    k = int(np.sum(c["ifr"] * 917 < 850))
    if k > 2 and job.rng.random() < 0.4:   # refrozen crust within the snow
        j = int(job.rng.integers(1, k))
        c["h"][j], c["ifr"][j], c["lwc"][j] = job.rng.uniform(0.02, 0.3), 1.0, 0.0
    h0, tn, to = c["props"]
    c["props"] = (h0, tn, max(tn, to))
    return as_ref(c)


def traces(job, nt=60, min_cases=4, max_cases=10 ** 9, resumed=True, aged_flavour=None, **kw):
    """Random whole-model traces until the budget is used; every third one (all
    with `aged_flavour`) is resumed from a random aged column.  Yields (info,
    dataset, trace)."""
    i = 0
    while i < max_cases and (i < min_cases or job.time_left() > 0):
        ds, info = trace.random_case(job, nt, **kw)
        if resumed and i % 3 == 2 or aged_flavour:
            c = aged(job, aged_flavour)
            tr = trace.run(ds, trace.restart_of(c, job.C))
            tr["START"] = c
            info["column"] = c
            job.count("traces.resumed")
        else:
            tr = trace.run(ds)
        job.count("traces")
        job.count("steps", nt)
        yield info, ds, tr
        i += 1


def judge_trace(job, keys, extra=None, rtol=1e-8, atol=1e-11, state=(), nt=60, interesting=None, **kw):
    """Every reported `keys` of every step must equal what the reference
    predicts from the previously reported state and that step's forcing; also
    the column fields in `state`."""
    for info, ds, tr in traces(job, nt, **kw):
        for t, act, exp, now, end, st in trace.walk(job, ds, tr):
            for k in keys:
                if not ref.close(act[k], exp[k], rtol, atol):
                    job.violation(
                        f"step:{k}", f"{k}={act[k]!r} at step {t}, expected {exp[k]!r} "
                        f"from the previous state and the forcing ({info})",
                        {"info": info, "t": t, "before": st["before"], "reported": act, "expected": exp})
            if state:
                d = ref.diff(now, end, state, rtol, atol)
                if d:
                    job.violation("step:column", f"column after step {t}: {d} ({info})",
                                  {"info": info, "t": t, "before": st["before"], "after": now,
                                   "expected": end})
            sig = interesting(act, exp, st, now) if interesting else (
                job.params.get("variant"), info["flavour"], tuple(round(act[k], 7) for k in keys))
            job.evaluated(len(keys) + bool(state), sig)
            if extra:
                extra(job, t, act, exp, now, end, st, ds, info)
        job.sample({"case": info, "last step": {k: act[k] for k in keys}})
