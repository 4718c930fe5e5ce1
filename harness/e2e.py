"""Runs the real COSIPY.main() with a controllable in-process scheduler.

The stand-in implements the part of the Dask client surface that is used:
submission (arguments pickled at submit time, as Dask does), execution in an
arbitrary order, results pickled back, and completion order chosen by the
workload.  `real_cluster=True` leaves Dask alone.
"""
import contextlib
import io as _io
import os
import pathlib
import pickle
import sys

import numpy as np
import xarray as xr

from harness import tomlw

_STATE = {}


class Future:
    _n = 0

    def __init__(self, sched, func, args, kwargs):
        self.sched = sched
        self.payload = pickle.dumps((args, kwargs))
        self.func = func
        Future._n += 1
        self.key = f"{getattr(func, '__name__', 'f')}-{Future._n}"
        self._done = False
        self._exc = None
        self._res = None

    def _run(self):
        if self._done:
            return
        args, kwargs = pickle.loads(self.payload)
        try:
            self._res = pickle.dumps(self.func(*args, **kwargs))
        except BaseException as e:  # noqa: BLE001
            self._exc = e
        self._done = True
        self.sched.trace.append(("exec", self.key))

    def result(self, timeout=None):
        self.sched.drain()
        self._run()
        if self._exc is not None:
            raise self._exc
        return pickle.loads(self._res)

    def done(self):
        return self._done

    @property
    def status(self):
        return "error" if self._exc else ("finished" if self._done else "pending")

    def exception(self):
        self._run()
        return self._exc

    def release(self):
        pass

    cancel = release

    def __hash__(self):
        return id(self)


class Scheduler:
    def __init__(self, rng, policy="random"):
        self.rng, self.policy = rng, policy
        self.futures, self.trace, self.completion, self.named = [], [], [], {}

    def perm(self, n):
        if self.policy == "fifo":
            return list(range(n))
        if self.policy == "lifo":
            return list(range(n))[::-1]
        return list(self.rng.permutation(n))

    def submit(self, func, args, kwargs, key=None):
        if key is not None and key in self.named:      # a task is known by its key
            return self.named[key]
        f = Future(self, func, args, kwargs)
        if key is not None:
            f.key, self.named[key] = key, f
        self.futures.append(f)
        self.trace.append(("submit", f.key))
        if self.policy == "eager" or (self.policy == "random" and self.rng.random() < 0.3):
            self.futures[int(self.rng.integers(len(self.futures)))]._run()
        return f

    def drain(self):
        for i in self.perm(len(self.futures)):
            self.futures[i]._run()

    def as_completed(self, futures):
        futures = list(futures)
        for f in futures:
            if f not in self.futures:
                self.futures.append(f)
        self.drain()
        for i in self.perm(len(futures)):
            self.completion.append(futures[i].key)
            yield futures[i]


def _sched():
    return _STATE["sched"]


class FakeCluster:
    def __init__(self, *a, **k):
        _STATE["cluster_kwargs"] = dict(k)
        self.kw = k

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self, *a, **k):
        pass

    def scale(self, *a, **k):
        _STATE["scale"] = a

    def job_script(self):
        return "#job"


class FakeClient:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def submit(self, func, *args, **kwargs):
        key = kwargs.pop("key", None)
        for k in ("pure", "workers", "retries", "priority", "resources", "actor", "actors", "allow_other_workers", "fifo_timeout"):
            kwargs.pop(k, None)
        return _sched().submit(func, args, kwargs, key)

    def map(self, func, *its, key=None, batch_size=None, **kwargs):
        keys = key if isinstance(key, list) else None
        return [self.submit(func, *a, key=keys[i] if keys else None, **kwargs) for i, a in enumerate(zip(*its))]

    def scatter(self, data, **k):
        return data

    def gather(self, futures, **k):
        return [f.result() for f in futures]


def _as_completed(futures, *a, with_results=False, **k):
    for f in _sched().as_completed(futures):
        yield (f, f.result()) if with_results else f


def _noop(*a, **k):
    return None


def install_fake_dask():
    import dask.distributed
    import dask_jobqueue
    import distributed

    repl = dict(LocalCluster=FakeCluster, Client=FakeClient, as_completed=_as_completed,
                progress=_noop, wait=_noop)
    for m in (dask.distributed, distributed):
        for k, v in repl.items():
            setattr(m, k, v)
    dask_jobqueue.SLURMCluster = FakeCluster
    if "COSIPY" in sys.modules:
        c = sys.modules["COSIPY"]
        for k, v in dict(repl, SLURMCluster=FakeCluster).items():
            if hasattr(c, k):
                setattr(c, k, v)


class Outcome:
    pass


def write_input(job, ds, name="in.nc", encoding=None):
    p = pathlib.Path(job.cfg["FILENAMES"]["data_path"]) / "input" / name
    p.parent.mkdir(parents=True, exist_ok=True)
    tmp = p.with_name(p.name + ".tmp")  # never truncates a file a failed run may still hold open
    ds.to_netcdf(tmp, encoding=encoding)
    os.replace(tmp, p)
    return name


def run_main(job, config, policy="random", fake=True, constants=None, input_ds=None, rng=None):
    """Run COSIPY.main() once under `config` overrides; returns Outcome with
    .exc, .result, .restart (loaded datasets or None), .stdout, .files."""
    cfg = tomlw.merge(job.cfg, config)
    if input_ds is not None:
        name = cfg["FILENAMES"]["input_netcdf"]
        write_input(job, input_ds, name)
    cpath = sys.argv[sys.argv.index("-c") + 1]
    tomlw.dump(cfg, cpath)
    if fake:
        install_fake_dask()
    import COSIPY

    rng = rng or job.rng
    _STATE["sched"] = Scheduler(rng, policy)
    data = pathlib.Path(cfg["FILENAMES"]["data_path"])
    before = {p: p.stat().st_mtime_ns for p in data.rglob("*") if p.is_file()}
    o = Outcome()
    o.exc = None
    buf = _io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            COSIPY.main()
    except BaseException as e:  # noqa: BLE001
        o.exc = e
    o.stdout = buf.getvalue()
    o.sched = _STATE["sched"]
    o.cluster = dict(_STATE.get("cluster_kwargs") or {})
    o.new = sorted(
        p for p in data.rglob("*")
        if p.is_file() and before.get(p) != p.stat().st_mtime_ns
    )
    o.result = o.restart = None
    o.result_path = o.restart_path = None
    for p in o.new:
        if p.suffix == ".nc" and p.parent.name == "output":
            with xr.open_dataset(p) as d:
                o.result = d.load()
            o.result_path = p
        if p.suffix == ".nc" and p.parent.name == "restart":
            with xr.open_dataset(p) as d:
                o.restart = d.load()
            o.restart_path = p
    o.cfg = cfg
    return o


def ok(job, o, what="run"):
    """Raise if a run that must succeed did not."""
    if o.exc is not None:
        raise o.exc
    if o.result is None:
        from harness.worker import CodeFailure

        raise CodeFailure(f"{what}: no output file was written")
    return o


def datadir(job):
    return pathlib.Path(job.cfg["FILENAMES"]["data_path"])
