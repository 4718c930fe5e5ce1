"""C31 generating configuration files asks before it replaces anything and leaves complete files."""
import io
import os
import pathlib
import re
import shutil
import sys

import numpy as np

from checks import c24
from harness import tomlw
from harness.worker import REPO

RULE = ("the real setup script (a scratch copy of its folder) run in forked processes in directories with random subsets of existing "
        "files, links and other content, random options and answers, repeated runs, end of input and interruption at the prompt, failing "
        "writes; every file opened for writing or removed is recorded by an audit hook, and the directory compared before and after. "
        "Distinct by existing files, options, answers and fault.")
REQUIRED = {"runs": 100, "created": 100, "replaced": 40, "kept": 100, "asked_again": 20, "interrupted": 20, "failed_write": 10, "silent": 20, "repeated": 20,
            "new_folder": 20, "here": 20, "own_folder": 3, "links": 10, "loaded": 5, "missing_template": 5}
FILES = ["config.toml", "constants.toml", "slurm_config.toml", "utilities_config.toml"]


def jobs(tier, seed):
    q = tier == "quick"
    return [dict(name=f"setup-{i}", func="setup", budget_s=14 if q else 120, timeout_s=600) for i in range(2)] + \
        [dict(name="complete-0", func="complete", budget_s=10 if q else 30, timeout_s=600)]


def run(script, cwd, argv, answers, fail_at=None):
    """One run; gives (outcome, prompts shown, paths written)."""
    def go():
        import builtins
        import contextlib
        import runpy

        os.chdir(cwd)
        asked, written = [], []
        it = iter(answers)

        def ask(prompt=""):
            asked.append(str(prompt))
            a = next(it, EOFError)
            if isinstance(a, type):
                raise a()
            return a

        builtins.input = ask
        n = [0]

        def hook(event, args):
            if event == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
                mode, flags = args[1], args[2]
                if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (not isinstance(mode, str) and flags & (os.O_WRONLY | os.O_RDWR)):
                    written.append(os.path.abspath(os.fsdecode(args[0])))
                    n[0] += 1
                    if fail_at is not None and n[0] == fail_at:
                        raise OSError(28, "No space left on device")
            elif event in ("os.remove", "os.rename", "os.rmdir", "os.truncate", "shutil.move", "shutil.rmtree", "os.link", "os.symlink"):
                written.append(f"{event}:{os.path.abspath(os.fsdecode(args[0]))}")
        sys.addaudithook(hook)
        sys.argv = ["setup_cosipy.py"] + argv
        sys.dont_write_bytecode = True
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(script, run_name="__main__")
            out = "ok"
        except SystemExit as e:
            out = f"exit {e.code}"
        except BaseException as e:  # noqa: BLE001
            out = type(e).__name__
        return out, asked, written
    return c24.forked(go)


def tree(root):
    out = {}
    for p in sorted(pathlib.Path(root).rglob("*")):
        r = str(p.relative_to(root))
        out[r] = ("link", os.readlink(p)) if p.is_symlink() else ("dir",) if p.is_dir() else ("file", p.read_bytes(), p.stat().st_mtime_ns)
    return out


def setup(job):
    rng = job.rng
    n = 0
    while job.time_left() > 0 or n < 60:
        n += 1
        d = pathlib.Path(job.scratch) / f"s{n}"
        src = d / "package" / "setup_cosipy"
        src.parent.mkdir(parents=True)
        shutil.copytree(REPO / "cosipy/utilities/setup_cosipy", src, ignore=shutil.ignore_patterns("__pycache__"))
        for f in FILES:                                     # templates told apart
            with open(src / f, "a") as h:
                h.write(f"# template {f} {rng.integers(10 ** 9)}\n")
        tpl = {f: (src / f).read_bytes() for f in FILES}
        cwd = d / "work dir"
        cwd.mkdir()
        mode = str(rng.choice(["here", "relative", "absolute", "own"], p=[0.4, 0.3, 0.25, 0.05]))
        argv = [] if mode == "here" else [str(rng.choice(["-o", "--output"])), {"relative": "conf/deep er", "absolute": str(d / "abs conf"), "own": str(src)}[mode]]
        target = {"here": cwd, "relative": cwd / "conf/deep er", "absolute": d / "abs conf", "own": src}[mode]
        fresh = mode in ("relative", "absolute") and rng.random() < 0.4
        silent = rng.random() < 0.3
        if silent:
            argv.insert(0 if rng.random() < 0.5 else len(argv), str(rng.choice(["-y", "--yes"])))
        old = {}
        elsewhere = {}
        if not fresh and mode != "own":
            target.mkdir(parents=True, exist_ok=True)
            for f in FILES:
                r = rng.random()
                if r < 0.55:
                    old[f] = rng.bytes(int(rng.integers(0, 300)))
                    (target / f).write_bytes(old[f])
                elif r < 0.65:
                    old[f] = rng.bytes(50)
                    elsewhere[f] = d / f"shared_{f}"
                    elsewhere[f].write_bytes(old[f])
                    (target / f).symlink_to(elsewhere[f])
                    job.count("links")
            (target / "notes.txt").write_text("mine")
        # interactions
        answers, consent, faulty = [], {}, None
        for f in FILES:
            if f in old and not silent:
                while rng.random() < 0.25:
                    answers.append(str(rng.choice(["maybe", "yy", "0", "ja", "nope", "y y"])))
                    job.count("asked_again")
                if faulty is None and rng.random() < 0.08:
                    faulty = f
                    answers.append(rng.choice([EOFError, KeyboardInterrupt]))
                    break
                yes = rng.random() < 0.5
                consent[f] = yes
                answers.append(str(rng.choice(["y", "Y", "yes", " Yes ", "YES"] if yes else ["n", "N", "no", "", "  ", "NO"])))
        nwrite = int(rng.integers(1, 5)) if rng.random() < 0.12 else None
        gone = str(rng.choice(FILES)) if rng.random() < 0.1 and mode != "own" else None
        if gone:
            (src / gone).unlink()
        before, sbefore = tree(d), tree(src)
        out, asked, written = run(str(src / "setup_cosipy.py"), str(cwd), argv, answers, nwrite)
        after = tree(d)
        ctx = lambda: {"mode": mode, "argv": argv, "existing": sorted(old), "links": sorted(elsewhere), "answers": [str(a) for a in answers], "fail_at": nwrite, "missing": gone,
                       "outcome": out, "asked": asked, "written": written}
        job.count("runs")
        job.evaluated(4, (mode, tuple(sorted(old)), silent, tuple(map(str, answers)), nwrite, gone))
        job.expect(tree(src) == sbefore, "templates-changed", "the templates were changed", ctx)
        if mode == "own":
            job.expect(out in ("ValueError", "SameFileError"), "own-folder", lambda: f"writing into the template folder gave {out}", ctx)
            job.count("own_folder")
            continue
        # what may and must have happened, file by file
        stop = False
        k = 0
        for f in FILES:
            p = target / f
            now = p.read_bytes() if p.is_file() else None
            was = old.get(f)
            if not stop and f == gone:
                job.expect(out == "FileNotFoundError", "missing-template", lambda: f"a missing template gave {out}", ctx)
                job.count("missing_template")
                stop = True
            if not stop and f == faulty:
                job.expect(out in ("EOFError", "KeyboardInterrupt") or out.startswith("exit"), "interrupt", lambda: f"ended with {out}", ctx)
                job.count("interrupted")
                stop = True
            writes = not stop and (was is None or silent or consent.get(f, False))
            if writes:
                k += 1
                if k == nwrite:
                    job.expect(out == "OSError", "failed-write", lambda: f"a failed write ended with {out}", ctx)
                    job.count("failed_write")
                    stop = True
                    continue        # the file being written may be incomplete
                job.expect(now == tpl[f], "not-written", lambda: f"{f} is not the template", ctx)
                job.count("created" if was is None else "replaced")
            else:
                job.expect(now == was, "destroyed", lambda: f"{f} was {'created' if was is None else 'changed'} without consent", ctx)
                job.count("kept", was is not None)
        if not stop:
            job.expect(out == "ok", "failed", lambda: f"ended with {out}", ctx)
            if not silent:
                asked_for = [f for f in FILES for q in asked if re.search(r"(?<![\w.])" + re.escape(f), q)]
                want = [f for f in FILES if f in old]
                job.expect(sorted(set(asked_for)) == sorted(want) and len(asked) == len(answers), "prompts", lambda: f"asked {len(asked)} times, about {sorted(set(asked_for))}", ctx)
            else:
                job.expect(not asked, "prompts", "asked although told to overwrite silently", ctx)
        allowed = {str(target / f) for f in FILES} | {str(p) for p in elsewhere.values()}
        stray = [w for w in written if w not in allowed and not w.split(":", 1)[-1].startswith(str(target) + os.sep)]
        job.expect(not stray, "stray-writes", lambda: f"wrote {stray}", ctx)
        other = [k for k in set(before) | set(after) if before.get(k) != after.get(k) and str(d / k) not in allowed and after.get(k) != ("dir",)]
        job.expect(not other, "other-files", lambda: f"changed {other}", ctx)
        for c, v in (("silent", silent), ("new_folder", fresh), ("here", mode == "here")):
            job.count(c, v)
        # again, declining everything: nothing changes
        if out == "ok" and not gone:
            a = tree(d)
            out2, _, w2 = run(str(src / "setup_cosipy.py"), str(cwd), [x for x in argv if x not in ("-y", "--yes")], ["n"] * 9)
            job.expect(out2 == "ok" and tree(d) == a and not w2, "repeat", lambda: f"a repeated, declined run wrote {w2}", ctx)
            job.count("repeated")
        shutil.rmtree(d)
    job.sample(ctx())


def complete(job):
    """The generated files hold every setting the code reads, of the shipped types, and load."""
    rng = job.rng
    for n in range(6):
        d = pathlib.Path(job.scratch) / f"c{n}"
        src = d / "setup_cosipy"
        shutil.copytree(REPO / "cosipy/utilities/setup_cosipy", src, ignore=shutil.ignore_patterns("__pycache__"))
        out, _, _ = run(str(src / "setup_cosipy.py"), str(d), ["-o", "conf"], [])
        if not job.expect(out == "ok", "failed", f"ended with {out}", {}):
            continue

        def flat(t, p=()):
            o = {}
            for k, v in t.items():
                o.update(flat(v, p + (k,)) if isinstance(v, dict) else {p + (k,): type(v).__name__})
            return o
        for f in FILES:
            a, b = flat(tomlw.load(REPO / f)), flat(tomlw.load(d / "conf" / f))
            miss = sorted(str(k) for k in a if k not in b)
            kinds = sorted(str(k) for k in a if k in b and a[k] != b[k] and {a[k], b[k]} != {"int", "float"})
            job.expect(not miss and not kinds, "incomplete", lambda: f"generated {f} lacks {miss}, has other types for {kinds}", {"file": f})
            job.evaluated(1, (f, n))

        def load():
            os.environ["COSIPY_DIR"] = str(d / "conf")
            sys.argv = ["x"]
            from checks.c23 import load_here
            got = load_here(str(d), ["x"], d / "conf")
            from cosipy.utilities.config_utils import UtilitiesConfig
            u = UtilitiesConfig()
            u.load(str(d / "conf/utilities_config.toml"))
            return len(got), sorted(x for x in ("aws2cosipy", "create_static", "wrf2cosipy") if hasattr(u, x))
        got = c24.forked(load)
        job.expect(got[1] == ["aws2cosipy", "create_static", "wrf2cosipy"], "load", lambda: f"loaded {got}", {})
        job.count("loaded")
    job.sample({"tables": got[1]})
