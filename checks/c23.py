"""C23 configuration files take effect completely and by their rules."""
import os
import pathlib
import sys
import tomllib

import numpy as np

from checks.c01 import make, stamp
from checks import c24
from harness import e2e, tomlw
from harness.worker import REPO

RULE = ("random configuration, constants and cluster files (every shipped key re-valued, plus unknown keys and tables) loaded in "
        "fresh forked processes under random command lines (short/long options, any order, unknown arguments, defaults from "
        "the working directory or COSIPY_DIR); the resulting settings compared with the files read independently; cluster "
        "submissions and Dask workers of real main() runs compared with the files. Distinct by file content and command line.")
REQUIRED = {"loads": 60, "values": 4000, "wrf": 15, "coupled": 10, "reloads": 15, "defaults_env": 8, "defaults_cwd": 8,
            "unknown_args": 15, "bad_paths": 10, "memory_override": 8, "slurm_runs": 4, "local_runs": 4, "utilities": 30}


def forked(fn):
    def safe():
        try:
            return "ok", fn()
        except BaseException as e:  # noqa: BLE001
            return "exc", repr(e)
    return c24.forked(safe)


def jobs(tier, seed):
    q = tier == "quick"
    k = dict(budget_s=12 if q else 120, timeout_s=600)
    out = []
    for c in range(2 if q else 4):
        out += [dict(name=f"load-{c}", func="load", **k), dict(name=f"cluster-{c}", func="cluster", **k),
                dict(name=f"utilities-{c}", func="utilities", **k)]
    return out


def value(rng, old):
    if isinstance(old, bool):
        return bool(rng.random() < 0.5)
    if isinstance(old, int):
        return int(rng.integers(-5, 10 ** int(rng.integers(1, 7))))
    if isinstance(old, float):
        return float(rng.choice([rng.normal(0, 1), rng.normal(0, 1) * 10.0 ** int(rng.integers(-9, 9)), 0.0, 1e300]))
    if isinstance(old, list):
        return [str(x) for x in rng.permutation(["--a=1", "--time=00:10:00", "--mem='4G'", "--x y", "ü"])[: int(rng.integers(0, 5))]]
    return str(rng.choice(["", "abc", "ümlaut-β", 'quo"te', "back\\slash", "2009-01-01T06:00", "a,b,c", "  spaced ", old]))


def randomise(rng, d, keep=()):
    out = {}
    for t, tab in d.items():
        out[t] = {k: (value(rng, v) if rng.random() < 0.6 and k not in keep else v) for k, v in tab.items()}
    if rng.random() < 0.5:
        tabs = list(out.items())
        out = dict(tabs[int(i)] for i in rng.permutation(len(tabs)))
    if rng.random() < 0.3:
        out["MY_EXTRA"] = {"my_key": 3, "other_key": "x"}
    return out


def expected(cfg, con, slurm):
    f = lambda d: {k: v for t in d.values() for k, v in t.items()}
    a, b, c = f(cfg), f(con), f(slurm)
    if cfg["DIMENSIONS"]["WRF"]:
        a.update(northing="south_north", easting="west_east")
    if cfg["DIMENSIONS"]["WRF_X_CSPY"]:
        a["full_field"] = True
        b.update(albedo_method="Oerlemans98", stability_correction="MO")
    if cfg["PARALLELIZATION"]["workers"] == 0:
        a["workers"] = None
    if slurm["OVERRIDES"]["memory_per_process"]:
        c["memory"] = f"{slurm['OVERRIDES']['memory_per_process'] * slurm['MEMORY']['cores']}GB"
    return a, b, c


def public(c):
    return {k: v for k, v in vars(c).items() if not k.startswith("_") and not isinstance(v, (classmethod, staticmethod))
            and not callable(v)}


def differ(got, want):
    return sorted(k for k in set(got) | set(want)
                  if k not in got or k not in want or type(got[k]) is not type(want[k]) or got[k] != want[k])


def load_here(cwd, argv, env_dir, slurm=True, reload=None):
    os.chdir(cwd)
    sys.argv = argv
    os.environ.pop("COSIPY_DIR", None)
    if env_dir is not None:
        os.environ["COSIPY_DIR"] = str(env_dir)
    assert "cosipy.config" not in sys.modules
    import cosipy.config as cc
    from cosipy.constants import Constants

    cc.SlurmConfig()
    out = [public(c) for c in (cc.Config, Constants, cc.SlurmConfig)]
    if reload is not None:
        reload()
        cc.Config(), Constants(), cc.SlurmConfig()
        out += [public(c) for c in (cc.Config, Constants, cc.SlurmConfig)]
    return out


def load(job):
    rng = job.rng
    shipped = {n: tomlw.load(REPO / f"{n}.toml") for n in ("config", "constants", "slurm_config")}
    n = 0
    while job.time_left() > 0 or n < 20:
        n += 1
        d = pathlib.Path(job.scratch) / f"case{n}"
        cwd = d / "cwd"
        other = d / "other dir"
        envdir = d / "somewhere" / "deep" / "env"
        for p in (cwd, other, envdir, envdir.parent / "other dir"):
            p.mkdir(parents=True)

        def draw():
            c = {k: randomise(rng, v, keep=("memory_per_process", "cores", "WRF", "WRF_X_CSPY", "workers")) for k, v in shipped.items()}
            c["config"]["DIMENSIONS"]["WRF"] = bool(rng.random() < 0.4)
            c["config"]["DIMENSIONS"]["WRF_X_CSPY"] = bool(rng.random() < 0.3)
            c["config"]["PARALLELIZATION"]["workers"] = int(rng.choice([0, 0, 1, 7]))
            c["slurm_config"]["MEMORY"]["cores"] = int(rng.integers(1, 40))
            m = rng.random()
            c["slurm_config"]["OVERRIDES"]["memory_per_process"] = 0 if m < 0.5 else (int(rng.integers(1, 9)) if m < 0.8 else float(rng.choice([0.5, 2.5])))
            return c

        c = draw()
        args, files = [], {}
        env = envdir if rng.random() < 0.4 else None
        # decoys: files that must not be read
        for k in c:
            for place in (cwd, envdir, envdir.parent / "other dir"):
                tomlw.dump(draw()[k], place / f"{k}.toml")
        for k, (short, long) in {"config": ("-c", "--config"), "constants": ("-x", "--constants"), "slurm_config": ("-s", "--slurm")}.items():
            if rng.random() < 0.7:
                f = (other if rng.random() < 0.6 else cwd) / str(rng.choice([f"{k}.toml", f"my {k}.cfg", f"{k}-β.toml"]))
                shown = os.path.relpath(f, cwd) if rng.random() < 0.5 else str(f)
                form = int(rng.integers(3))
                args.append([short, shown] if form == 0 else [long, shown] if form == 1 else [f"{long}={shown}"])
            else:
                f = (env or cwd) / f"{k}.toml"
                job.count("defaults_env" if env else "defaults_cwd")
            files[k] = f
            tomlw.dump(c[k], f)
        args = [args[int(i)] for i in rng.permutation(len(args))]
        if rng.random() < 0.5:
            job.count("unknown_args")
            args.insert(int(rng.integers(0, len(args) + 1)), [str(rng.choice(["--my-option=3", "-q", "--verbose", "positional"]))])
        argv = ["COSIPY.py"] + [x for a in args for x in a]
        want = expected(*(tomllib.load(open(files[k], "rb")) for k in ("config", "constants", "slurm_config")))
        again = None
        if rng.random() < 0.4:
            c2 = draw()
            again = lambda: [tomlw.dump(tomlw.merge(c[k], c2[k]), files[k]) for k in c]
        kind, got = forked(lambda: load_here(cwd, argv, env, reload=again))
        ctx = lambda: {"argv": argv, "env": env, "files": files, "config": c["config"]["DIMENSIONS"],
                       "slurm": c["slurm_config"]["OVERRIDES"]}
        job.count("loads")
        job.count("wrf", c["config"]["DIMENSIONS"]["WRF"])
        job.count("coupled", c["config"]["DIMENSIONS"]["WRF_X_CSPY"])
        job.count("memory_override", bool(c["slurm_config"]["OVERRIDES"]["memory_per_process"]))
        if not job.expect(kind == "ok", "load-failed", lambda: f"loading failed: {got}", ctx):
            continue
        for name, g, w in zip(("Config", "Constants", "SlurmConfig"), got, want):
            b = differ(g, w)
            job.count("values", len(w))
            job.expect(not b, f"{name}", lambda: f"{name}: " + ", ".join(f"{k}={g.get(k, '(absent)')!r} (file: {w.get(k, '(absent)')!r})" for k in b[:6]), ctx)
        job.evaluated(sum(map(len, want)), (n, tuple(argv[1:]), repr(c)))
        if again:
            job.count("reloads")
            again()
            w2 = expected(*(tomllib.load(open(files[k], "rb")) for k in ("config", "constants", "slurm_config")))
            for name, g, w, w0 in zip(("Config", "Constants", "SlurmConfig"), got[3:], w2, want):
                w = {**{k: v for k, v in w0.items() if k not in w}, **w}
                b = differ(g, w)
                job.expect(not b, f"reload:{name}", lambda: f"after the file changed, {name}: " +
                           ", ".join(f"{k}={g.get(k)!r} (file: {w.get(k)!r})" for k in b[:6]), ctx)
        if n % 4 == 0:
            job.count("bad_paths")
            kind, got = forked(lambda: load_here(cwd, ["COSIPY.py", "-c", str(d / "missing.toml")], None))
            job.expect(kind == "exc", "missing-file", "a missing configuration file was accepted", ctx)
            kind, got = forked(lambda: load_here(cwd, ["COSIPY.py"], d / "nowhere"))
            job.expect(kind == "exc" and "NotADirectoryError" in got, "bad-dir", f"an invalid COSIPY_DIR was accepted: {kind}", ctx)
        job.sample({"argv": argv, "dimensions": c["config"]["DIMENSIONS"], "slurm": c["slurm_config"]["OVERRIDES"]})


def cluster(job):
    """What the cluster settings of the files turn into when main() runs."""
    rng = job.rng
    n = 0
    spath = sys.argv[sys.argv.index("-s") + 1]
    sl0 = tomlw.load(REPO / "slurm_config.toml")
    while job.time_left() > 0 or n < 6:
        n += 1
        ds = make(job, 3, False, 2, 2)
        t = ds.time.values
        use = n % 2 == 0
        s = randomise(rng, sl0, keep=("memory_per_process", "cores", "nodes"))
        s["MEMORY"]["cores"] = int(rng.integers(1, 30))
        s["MEMORY"]["nodes"] = int(rng.integers(1, 6))
        s["OVERRIDES"]["memory_per_process"] = int(rng.choice([0, 0, 2, 5]))
        tomlw.dump(s, spath)
        w = int(rng.choice([0, 1, 3]))
        port = int(rng.integers(1000, 9999))
        cfg = {"SIMULATION_PERIOD": {"time_start": stamp(t[0]), "time_end": stamp(t[-1])},
               "FILENAMES": {"input_netcdf": "in.nc", "output_prefix": "x"},
               "PARALLELIZATION": {"slurm_use": use, "workers": w, "local_port": port}}
        e2e._STATE.pop("cluster_kwargs", None)
        e2e._STATE.pop("scale", None)
        o = e2e.ok(job, e2e.run_main(job, cfg, input_ds=ds))
        f = {k: v for tb in s.values() for k, v in tb.items()}
        mem = f"{f['memory_per_process'] * f['cores']}GB" if f["memory_per_process"] else f["memory"]
        want = dict(job_name=f["name"], cores=f["cores"], processes=f["cores"], memory=mem, account=f["account"],
                    job_extra_directives=f["slurm_parameters"], local_directory=f["local_directory"]) if use else \
            dict(scheduler_port=port, n_workers=w or None, threads_per_worker=1)
        ctx = lambda: {"slurm": s, "use": use, "workers": w, "given": o.cluster}
        bad = sorted(k for k in want if o.cluster.get(k, "(absent)") != want[k])
        job.expect(not bad, "cluster", lambda: "cluster was given " + ", ".join(f"{k}={o.cluster.get(k)!r} (file: {want[k]!r})" for k in bad), ctx)
        job.count("slurm_runs" if use else "local_runs")
        if use:
            job.expect(e2e._STATE.get("scale") == (f["nodes"] * f["cores"],), "scale", f"cluster scaled to {e2e._STATE.get('scale')}", ctx)
        job.evaluated(len(want), (use, repr(s), w))
        job.sample(ctx())
        for p in list(e2e.datadir(job).rglob("*.nc")):
            p.unlink()


def utilities(job):
    rng = job.rng
    shipped = tomlw.load(REPO / "utilities_config.toml")
    n = 0

    def nest(d):
        return {k: nest(v) if isinstance(v, dict) else (value(rng, v) if rng.random() < 0.7 else v) for k, v in d.items()}

    def dump(d, path):
        out = []
        for tool, tabs in d.items():
            for tab, vals in tabs.items():
                out.append(f"[{tool}.{tab}]")
                out += [f"{k} = {tomlw._v(v)}" for k, v in vals.items()]
        pathlib.Path(path).write_text("\n".join(out) + "\n")

    def child(path):
        from cosipy.utilities.config_utils import UtilitiesConfig

        u = UtilitiesConfig()
        u.load(path)
        return {t: {k: dict(getattr(getattr(u, t), k)) for k in tabs} for t, tabs in shipped.items()}, \
            {t: {k: dict(getattr(u.get_config_expansion(t), k)) for k in tabs} for t, tabs in shipped.items()}, \
            str(u.parser.parse_args(["-u", path]).utilities_path)

    while job.time_left() > 4 or n < 20:
        n += 1
        d = nest(shipped)
        p = str(pathlib.Path(job.scratch) / f"u{n}.toml")
        dump(d, p)
        want = tomllib.load(open(p, "rb"))
        kind, got = forked(lambda: child(p))
        job.count("utilities")
        ctx = lambda: {"file": d}
        if job.expect(kind == "ok", "utilities-load", lambda: f"{got}", ctx):
            job.expect(got[0] == want and got[1] == want and got[2] == p, "utilities", "utilities settings differ from the file", ctx)
        job.evaluated(1, repr(d))
    job.sample({"utilities": d})
