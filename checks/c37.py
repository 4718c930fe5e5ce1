"""C37 converting an old configuration carries every setting over."""
import contextlib
import io
import os
import pathlib
import runpy
import shutil
import sys
import tomllib
import types

from checks import c24
from harness import tomlw
from harness.worker import REPO

RULE = ("the real convert_config.py, copied into generated source trees of the old layout (config.py, constants.py, the utilities' modules, "
        "cosipy/output) with random values of every type for every setting, settings left out and settings of the user's own; run in forked processes; "
        "the files read back and, in part, loaded by the current model.  Distinct by (names left out, output name, values).")
REQUIRED = {"runs": 60, "settings": 8000, "left_out": 60, "false": 300, "zero": 100, "dates_in_name": 20, "plain_name": 10, "loaded": 8, "selections": 60,
            "other_files": 60, "replaced": 15}


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"convert-{i}", func="convert", budget_s=12 if q else 90, timeout_s=600) for i in range(2)]


def writer():
    """Stand-in of the toml package (absent here)."""
    m = types.ModuleType("toml")

    def dumps(d, path=()):
        out = []
        for k, v in d.items():
            if v is not None and not isinstance(v, dict):
                out.append(f"{k} = {tomlw._v(v)}")
        for k, v in d.items():
            if isinstance(v, dict):
                sub = ".".join(path + (k,))
                out += ["", f"[{sub}]", dumps(v, path + (k,))]
        return "\n".join(out)

    m.dumps = dumps
    m.dump = lambda d, f: f.write(dumps(d) + "\n")
    return m


def value(rng, v, key):
    if isinstance(v, bool):
        return bool(rng.random() < 0.5)
    if isinstance(v, int):
        return int(rng.choice([0, 1, int(rng.integers(-5, 5000)), v]))
    if isinstance(v, float):
        return float(rng.choice([0.0, v, rng.uniform(-1e3, 1e4), rng.uniform(0, 1) * 10.0 ** int(rng.integers(-9, 8))]))
    return str(rng.choice([v, v + "_x", f"./some/where {int(rng.integers(99))}/{key}.nc", "", "none", 'a "b" \\c', "5", "True"]))


def py(values):
    return "".join(f"{k} = {v!r}\n" for k, v in values.items())


def tree(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in root.rglob("*") if p.is_file() and "__pycache__" not in p.parts}


def convert(job):
    rng = job.rng
    cur = {f: tomlw.load(REPO / f"{f}.toml") for f in ("config", "constants", "utilities_config")}
    n = 0
    while n < 40 or job.time_left() > 0:
        n += 1
        d = pathlib.Path(job.scratch) / f"old{n}"
        for s in ("utilities/aws2cosipy", "utilities/wrf2cosipy", "cosipy"):
            (d / s).mkdir(parents=True)
        shutil.copy(REPO / "convert_config.py", d)
        real = rng.random() < 0.15                       # unchanged values: these have to load and run
        pick = lambda v, k: v if real else value(rng, v, k)
        vals = {f: {t: {k: pick(v, k) for k, v in tab.items()} for t, tab in cur[f].items() if t != "OUTPUT_VARIABLES"} for f in ("config", "constants")}
        aws = {t: {k: pick(v, k) for k, v in tab.items() if k != "LUT_path"} for t, tab in cur["utilities_config"]["aws2cosipy"].items()}
        wrf = {t: {k: pick(v, k) for k, v in tab.items()} for t, tab in cur["utilities_config"]["wrf2cosipy"].items()}
        stem = str(rng.choice(["Zhadang", "Zhadang_ERA5", "a_b_c", "Hintereisferner.v2"]))
        dated = bool(rng.random() < 0.6) or "_" in stem
        if "v2" in stem and dated:
            stem = "Hintereisferner_v2"
        # old name of the result: <prefix>_<dates>.nc, or <prefix>.nc without an underscore
        name = f"{stem}_20090101-20091231.nc" if dated else f"{stem}.nc"
        vals["config"]["FILENAMES"]["output_prefix"] = stem
        gone = set()
        if not real:
            for tabs in (vals["config"], vals["constants"], aws, wrf):
                for t in tabs.values():
                    for k in t:
                        if rng.random() < 0.02 and k != "output_prefix":
                            gone.add(k)
        drop = lambda tabs: {k: v for t in tabs.values() for k, v in t.items() if k not in gone and k != "output_prefix"}
        (d / "config.py").write_text('"""Old settings."""\n' + py(drop(vals["config"])) + f"output_netcdf = {name!r}\nmy_own = 17\n")
        (d / "constants.py").write_text(py(drop(vals["constants"])) + "my_constant = 1.5\n")
        (d / "utilities/aws2cosipy/aws2cosipyConfig.py").write_text(py(drop(aws)))
        (d / "utilities/wrf2cosipy/wrf2cosipyConfig.py").write_text(py(drop(wrf)))
        sel = {}
        for k, full in cur["config"]["OUTPUT_VARIABLES"].items():
            names = full.split(",")
            keep = [x for x in names if real or rng.random() < 0.7] or names[:1]
            sel[k] = ",".join(keep)
        sep = str(rng.choice([" : ", " = ", ": "]))
        (d / "cosipy/output").write_text("[vars]\n" + "".join(f"{k.split('_')[1]}{sep}{v}\n" for k, v in sel.items()))
        if rng.random() < 0.4:
            (d / "config.toml").write_text("[FILENAMES]\nold = 1\n")
            job.count("replaced")
        (d / "notes.txt").write_text("mine")
        before = tree(d)

        def go():
            os.chdir(d)
            sys.path.insert(0, str(d))
            for m in [m for m in sys.modules if m in ("config", "constants", "utilities", "toml", "cosipy") or m.startswith(("utilities.", "cosipy."))]:
                del sys.modules[m]
            sys.modules["toml"] = writer()
            sys.argv = ["convert_config.py"]
            sys.dont_write_bytecode = True
            with contextlib.redirect_stdout(io.StringIO()) as o:
                try:
                    runpy.run_path(str(d / "convert_config.py"), run_name="__main__")
                    return "ok", o.getvalue()
                except SystemExit as e:
                    return ("ok" if not e.code else f"exit {e.code}"), o.getvalue()
                except Exception as e:  # noqa: BLE001
                    return f"{type(e).__name__}: {e}", o.getvalue()

        outcome, said = c24.forked(go)
        after = tree(d)
        ctx = lambda: {"config": vals["config"], "aws": aws, "left_out": sorted(gone), "output_netcdf": name, "outcome": outcome}
        made = {"config.toml", "constants.toml", "utilities_config.toml"}
        job.count("runs")
        if not job.expect(outcome == "ok" and made <= set(after), "failed", lambda: f"ended with {outcome}, made {sorted(made & set(after))}", ctx):
            shutil.rmtree(d)
            continue
        job.expect({k: v for k, v in after.items() if k not in made} == {k: v for k, v in before.items() if k not in made}, "other-files",
                   "files other than the three configuration files changed", ctx)
        job.count("other_files")
        try:
            got = {f: tomllib.loads(after[f"{f}.toml"].decode()) for f in ("config", "constants", "utilities_config")}
        except (tomllib.TOMLDecodeError, UnicodeDecodeError) as e:
            job.expect(False, "unreadable", f"not TOML: {e}", ctx)
            continue
        util = got["utilities_config"]
        want = [("config", got["config"], dict(vals["config"], OUTPUT_VARIABLES=sel)), ("constants", got["constants"], vals["constants"]),
                ("aws2cosipy", util.get("aws2cosipy", {}), aws), ("wrf2cosipy", util.get("wrf2cosipy", {}), wrf)]
        for f, g, tabs in want:
            for t, tab in tabs.items():
                for k, v in tab.items():
                    have = g.get(t, {}).get(k, "absent")
                    w = lambda: dict(ctx(), table=t, setting=k, old=v, new=have)
                    if k in gone:
                        job.expect(not have or have == "absent", "invented", lambda: f"[{t}] {k} was not set but is now {have!r}", w)
                        job.count("left_out")
                    else:
                        job.expect(type(have) is type(v) and have == v, "setting", lambda: f"{f} [{t}] {k} was {v!r} and is now {have!r}", w)
                        job.count("settings")
                        job.count("false", v is False)
                        job.count("zero", v == 0 and v is not False)
        job.count("selections")
        cs = util.get("create_static", {})
        want_cs = {t: sorted(tab) for t, tab in cur["utilities_config"]["create_static"].items()}
        job.expect({t: sorted(tab) for t, tab in cs.items()} == want_cs, "create-static", lambda: f"create_static has {cs}", ctx)
        shipped = cur["utilities_config"]["create_static"]
        odd = [f"{t}.{k} = {v!r}" for t, tab in cs.items() for k, v in tab.items()
               if type(v) is not type(shipped.get(t, {}).get(k, v)) or (not isinstance(v, bool) and v not in ("", 0))]
        job.expect(not odd, "create-static-invented", lambda: f"create_static is not left to be filled in: {odd}", ctx)
        job.expect("create_static" in said, "warning", "nothing says that create_static has to be filled in", lambda: {"printed": said})
        job.count("dates_in_name" if dated else "plain_name")
        if real:
            def load():
                os.environ["COSIPY_DIR"] = str(d)
                sys.argv = ["x"]
                from checks.c23 import load_here
                return load_here(str(d), ["x"], d)
            (d / "slurm_config.toml").write_text((REPO / "slurm_config.toml").read_text())
            try:
                settings = c24.forked(load)
                job.expect(bool(settings), "load", "the model does not load the converted files", ctx)
                job.count("loaded")
            except RuntimeError as e:
                job.expect(False, "load", f"the model does not load the converted files: {e}", ctx)
        job.evaluated(1, (tuple(sorted(gone)), name, real, sep, tuple(sel.values())))
        shutil.rmtree(d)
    job.sample(ctx())
