"""C25 compiled execution equals interpreted execution; no out-of-bounds access."""
import os
import pathlib
import pickle
import subprocess
import sys

import numpy as np

from checks.common import FULL, VARIANTS
from harness import gen, trace
from harness.worker import REPO, CodeFailure, prepare

RULE = ("every stage on random columns (one-layer, thin, saturated, hundreds of layers) and whole-model traces, executed interpreted in this process "
        "and compiled (numba, NUMBA_BOUNDSCHECK=1) in a child process; all resulting columns and return values compared, any "
        "IndexError of the bounds sanitizer is a violation.  Distinct by case.")
REQUIRED = {"stage_cases": 600, "trace_cases": 8, "trace_steps": 300, "compiled_processes": 4, "ops": 12, "agreeing": 600,
            "earlier_runs": 1, "deep_columns": 40}
NAMES = ["default", "adaptive-loose", "MO-vionnet", "physics-empirical"]
MINE = {"MO-vionnet": {**VARIANTS["MO"], "densification_method": "Vionnet", "sfc_temperature_method": "Newton"},
        "physics-empirical": {**VARIANTS["physics"], "densification_method": "empirical", "thermal_conductivity_method": "empirical",
                              "albedo_method": "Bougamont05", "remesh_method": "adaptive_profile"},
        "bougamont": VARIANTS["bougamont"], "dt3h": VARIANTS["dt3h"], "slsqp": VARIANTS["slsqp"], "lbfgsb": VARIANTS["lbfgsb"],
        "constant": VARIANTS["constant"], "coarse": VARIANTS["coarse"]}
# settings of an earlier compiled run of the same tree, left behind in numba's cache where the code uses one
EARLIER = {"physics-empirical": {"densification_method": "empirical", "thermal_conductivity_method": "empirical",
                                 "albedo_method": "Bougamont05", "remesh_method": "adaptive_profile"}}
MINE["physics-empirical"].update(spec_heat_air=1100.0, spec_heat_water=4100.0, lat_heat_vaporize=2.4e6, lat_heat_sublimation=2.75e6,
                                 k_w=0.6, sigma=5.5e-8, ice_density=910.0, air_density=1.2, snow_ice_threshold=880.0)
ASSUMPTIONS = ["numba's bounds checking covers array indexing in compiled code; typed lists check bounds themselves",
               "the C code of numba, numpy and scipy is trusted"]


def jobs(tier, seed):
    q = tier == "quick"
    names = NAMES if q else NAMES + ["bougamont", "dt3h", "slsqp", "lbfgsb", "constant", "coarse"]
    return [dict(name=f"jit-{v}", func="both", constants=MINE.get(v, VARIANTS.get(v)), config=FULL, timeout_s=840,
                 params=dict(variant=v, earlier=EARLIER.get(v), stages=400 if q else 6000, traces=4 if q else 40, nt=60 if q else 200)) for v in names]


# -- shared by the interpreted parent and the compiled child --------------------
def ops():
    from cosipy.modules.albedo import updateAlbedo
    from cosipy.modules.densification import densification
    from cosipy.modules.heatEquation import solveHeatEquation
    from cosipy.modules.penetratingRadiation import penetrating_radiation
    from cosipy.modules.percolation import percolation
    from cosipy.modules.refreezing import refreezing
    from cosipy.modules.roughness import updateRoughness
    from cosipy.modules.surfaceTemperature import update_surface_temperature

    return {
        "remesh": lambda g: g.update_grid(), "melt": lambda g, m: g.remove_melt_weq(m),
        "snow": lambda g, h, rho, T, w: g.add_fresh_snow(h, rho, T, w, 3600),
        "percolate": lambda g, w, dt: percolation(g, w, dt), "refreeze": lambda g: refreezing(g),
        "heat": lambda g, dt: solveHeatEquation(g, dt), "densify": lambda g, s, dt: densification(g, s, dt),
        "radiate": lambda g, sw, dt: penetrating_radiation(g, sw, dt), "albedo": lambda g, T, a: updateAlbedo(g, T, a),
        "rough": lambda g: updateRoughness(g), "surface": lambda g, *a: update_surface_temperature(g, *a),
        "merge": lambda g, k: g.merge_nodes(k), "split": lambda g, k: g.split_node(k),
        "correct": lambda g, k, h: g.correct_layer(k, h), "remove": lambda g, ks: g.remove_node(ks),
        "clock": lambda g, s: g.set_fresh_snow_props_update_time(s),
    }


GETTERS = ("get_density", "get_specific_heat", "get_porosity", "get_cold_content", "get_irreducible_water_content",
           "get_thermal_conductivity", "get_thermal_diffusivity", "get_depth", "get_snow_heights", "get_ice_heights",
           "get_total_snowheight", "get_total_height", "get_number_snow_layers", "get_number_layers")


def flatten(v):
    if v is None:
        return []
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in flatten(y)]
    return [float(x) for x in np.ravel(np.asarray(v, float))]


def run_stage(OPS, col, seq):
    """Result after every operation of the sequence."""
    out = []
    try:
        g = gen.make_grid(col)
        for name, args in seq:
            r = OPS[name](g, *args)
            s = gen.snap(g)
            extra = [flatten(getattr(g, m)()) for m in GETTERS] if name in ("remesh", "snow", "densify") else []
            out.append((name, flatten(r), [s["h"], s["T"], s["lwc"], s["ifr"], s["refr"], np.array(s["props"])], extra))
    except Exception as e:  # noqa: BLE001
        out.append(("raised", type(e).__name__, str(e)[:200], traceback_site(e)))
    return out


def traceback_site(e):
    import traceback

    f = traceback.extract_tb(e.__traceback__)[-1]
    return f"{pathlib.Path(f.filename).name}:{f.name}"


def run_trace(ds):
    try:
        tr = trace.run(ds)
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__, str(e)[:200], traceback_site(e))
    return {k: np.asarray(tr[k], float) for k in trace.NAMES if isinstance(tr[k], np.ndarray)}


def child(path_in, path_out):
    with open(path_in, "rb") as f:
        d = pickle.load(f)
    sys.argv = d["argv"]
    np.seterr(all="ignore")
    import numba

    assert not numba.config.DISABLE_JIT and numba.config.BOUNDSCHECK
    from cosipy.cpkernel.grid import Grid

    assert type(Grid).__name__ == "JitClassType", type(Grid)
    OPS = ops()
    out = dict(stages=[run_stage(OPS, c, s) for c, s in d["stages"]], traces=[run_trace(t) for t in d["traces"]])
    with open(path_out + ".tmp", "wb") as f:
        pickle.dump(out, f)
    os.replace(path_out + ".tmp", path_out)
    os._exit(0)


# -- parent ---------------------------------------------------------------------
def sequence(rng, c, C):
    """A random operation sequence with legal arguments for column c."""
    n = len(c["h"])
    dt = int(rng.choice([900, 3600, 10800]))
    single = {
        "remesh": lambda: (), "melt": lambda: (float(rng.choice([0.0, -0.01, rng.uniform(0, 0.02), rng.uniform(0, 0.4)])),),
        "snow": lambda: (float(rng.uniform(0.001, 0.2)), float(rng.uniform(60, 400)), float(rng.uniform(250, 273.16)), 0.0),
        "percolate": lambda: (float(rng.choice([0.0, rng.uniform(0, 0.01), rng.uniform(0, 0.1)])), dt), "refreeze": lambda: (),
        "heat": lambda: (dt,), "densify": lambda: (float(rng.uniform(0, 60)), dt),
        "radiate": lambda: (float(rng.uniform(0.1, 1000)), dt), "albedo": lambda: (float(rng.uniform(250, 273.16)), float(rng.uniform(0.4, 0.9))),
        "rough": lambda: (), "clock": lambda: (float(dt),),
        "merge": lambda: (int(rng.integers(n - 1)),), "split": lambda: (int(rng.integers(n)),),
        "correct": lambda: (int(rng.integers(max(1, min(n - 2, 6)))), float(rng.uniform(0.005, 0.2))),
        "remove": lambda: ([int(x) for x in sorted(rng.permutation(n)[: int(rng.integers(1, max(2, n // 2)))])],),
        "surface": lambda: (float(dt), 2.0, float(rng.uniform(2e-4, 4e-3)), float(rng.uniform(245, 300)), float(rng.uniform(5, 100)),
                            float(rng.uniform(450, 1000)), float(rng.choice([0.0, rng.uniform(0, 800)])), float(rng.choice([0.0, rng.uniform(0.1, 15)])),
                            float(rng.choice([0.0, rng.uniform(0, 5)])), float(rng.uniform(0, 45)), None, float(rng.uniform(0, 1))),
    }
    if n == 1:
        single.pop("merge")
    if rng.random() < 0.7:
        k = str(rng.choice(list(single)))
        return [(k, single[k]())]
    order = ["snow", "remesh", "albedo", "rough", "radiate", "surface", "melt", "percolate", "refreeze", "heat", "densify", "clock", "remesh"]
    return [(k, single[k]()) for k in order if rng.random() < 0.8]


def close(a, b, rtol, atol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def start_compiled(job, name, argv, stages, traces):
    base = pathlib.Path(job.scratch)
    pin, pout = str(base / f"{name}.pkl"), str(base / f"{name}-compiled.pkl")
    with open(pin, "wb") as f:
        pickle.dump(dict(argv=argv, stages=stages, traces=traces), f)
    env = dict(os.environ, NUMBA_BOUNDSCHECK="1", NUMBA_CACHE_DIR=str(base / "numba"))
    env.pop("NUMBA_DISABLE_JIT", None)
    env["PYTHONPATH"] = f"{pathlib.Path(__file__).resolve().parent.parent}:{REPO}"
    env["COSIPY_DIR"] = str(pathlib.Path(argv[argv.index("-c") + 1]).parent)
    return subprocess.Popen([sys.executable, "-c", f"from checks.c25 import child; child({pin!r}, {pout!r})"], cwd=str(base), env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT), pout


def finish_compiled(job, started):
    """Results of the compiled child; None when it died of a signal (a violation)."""
    p, pout = started
    out, _ = p.communicate()
    if not os.path.exists(pout):
        if p.returncode is not None and p.returncode < 0:
            job.violation("compiled-died", f"the compiled model died with signal {-p.returncode}", out.decode(errors="replace")[-1500:])
            return None
        tail = out.decode(errors="replace")[-2500:]
        # compilation or execution failed inside the code under test
        if str(REPO) in tail:
            raise CodeFailure(f"the compiled model could not be run: {tail}")
        raise RuntimeError(tail)
    job.count("compiled_processes")
    with open(pout, "rb") as f:
        return pickle.load(f)


def both(job):
    rng, C = job.rng, job.C
    P = job.params
    stages = []
    for i in range(P["stages"]):
        deep = i % 20 == 7
        c = gen.column(rng, nice=int(rng.integers(1, 4)) if i % 9 == 0 else int(rng.integers(120, 320)) if deep else None)
        job.count("deep_columns", len(c["h"]) > 128)
        c["h"][-1] = max(c["h"][-1], 3.0)
        stages.append((c, sequence(rng, c, C)))
    traces, infos = [], []
    for _ in range(P["traces"]):
        ds, info = trace.random_case(job, P["nt"])
        traces.append(ds.load())
        infos.append(info)
    if P.get("earlier"):
        spec = dict(job.spec, constants=P["earlier"])
        keep = list(sys.argv), os.environ.get("COSIPY_DIR")
        prepare(spec, str(pathlib.Path(job.scratch) / "earlier"))
        other = list(sys.argv)
        sys.argv[:], os.environ["COSIPY_DIR"] = keep[0], keep[1]
        if finish_compiled(job, start_compiled(job, "earlier", other, stages[:60], traces[:1])) is None:
            return
        job.count("earlier_runs")
    p = start_compiled(job, "cases", sys.argv, stages, traces)
    OPS = ops()
    mine = dict(stages=[run_stage(OPS, c, s) for c, s in stages], traces=[run_trace(t) for t in traces])
    comp = finish_compiled(job, p)
    if comp is None:
        return
    names = set()
    for (c, seq), a, b in zip(stages, mine["stages"], comp["stages"]):
        job.count("stage_cases")
        names |= {k for k, _ in seq}
        ctx = lambda: {"column": c, "operations": seq, "interpreted": a[-1], "compiled": b[-1]}
        job.evaluated(len(seq), (gen.signature(c), tuple(k for k, _ in seq)))
        for x in (a, b):
            if x[-1][0] == "raised" and x[-1][1] in ("IndexError", "OverflowError", "MemoryError"):
                job.violation("out-of-bounds", f"{x[-1][1]} in {x[-1][3]} ({'compiled' if x is b else 'interpreted'}): {x[-1][2]}", ctx())
        if a[-1][0] == "raised" or b[-1][0] == "raised":
            job.count("raising")
            job.expect(a[-1][0] == b[-1][0], "exception",      # numba renames some exceptions
                       lambda: f"interpreted {a[-1][:3]}, compiled {b[-1][:3]}", ctx)
            continue
        ok = True
        for u, v in zip(a, b):
            same = close(u[1], v[1], 1e-7, 1e-9) and all(close(m, w, 1e-9, 1e-11) for m, w in zip(u[2], v[2])) and \
                all(close(m, w, 1e-8, 1e-10) for m, w in zip(u[3], v[3]))
            if not same:
                ok = False
                job.violation("stage:" + u[0], f"{u[0]}: compiled and interpreted results differ",
                              {"column": c, "operations": seq, "interpreted": u, "compiled": v})
                break
        job.count("agreeing", ok)
    job.count("ops", len(names))
    for info, a, b in zip(infos, mine["traces"], comp["traces"]):
        job.count("trace_cases")
        if isinstance(a, tuple) or isinstance(b, tuple):
            job.violation("trace-raised", f"interpreted {a if isinstance(a, tuple) else 'completed'}, compiled "
                          f"{b if isinstance(b, tuple) else 'completed'}", info)
            continue
        nt = P["nt"]
        first = None
        for k in a:
            x, y = a[k].reshape(nt, -1), b[k].reshape(nt, -1)
            d = ~np.isclose(x, y, rtol=1e-6, atol=1e-7, equal_nan=True).all(1)
            if d.any() and (first is None or d.argmax() < first[0]):
                first = (int(d.argmax()), k, x[d.argmax()][:6].tolist(), y[d.argmax()][:6].tolist())
        job.count("trace_steps", nt if first is None else first[0])
        job.evaluated(nt, (info["start"], info["flavour"], info["variables"]))
        job.expect(first is None, "trace", lambda: f"step {first[0]}: {first[1]} interpreted {first[2]}, compiled {first[3]}", info)
    job.sample({"case": infos[0], "ops": sorted(names)})
