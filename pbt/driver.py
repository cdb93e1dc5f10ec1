"""Run the model's own main program, with the cluster replaced by a stand-in
that executes each submitted job on pickled copies of its arguments, in an
order and with a completion order chosen by the test."""
import os
import pickle
import shutil

from pbt import env


class _Future:
    def __init__(self, fn, args, kw):
        self.job = pickle.dumps((fn, args, kw))
        self.res = None

    def run(self):
        if self.res is None:
            fn, args, kw = pickle.loads(self.job)
            self.res = pickle.dumps(fn(*args, **kw))

    def result(self, *a, **k):
        self.run()
        return pickle.loads(self.res)


class _Schedule:
    order = None      # permutation seeds, one float per job
    submitted = 0

    @classmethod
    def sorted(cls, futures):
        futures = list(futures)
        keys = cls.order or []
        idx = sorted(range(len(futures)), key=lambda k: (keys[k % len(keys)] if keys else 0, k))
        return [futures[k] for k in idx]


class _Cluster:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def scale(self, *a):
        pass


class _Client(_Cluster):
    def submit(self, fn, *args, **kw):
        _Schedule.submitted += 1
        return _Future(fn, args, kw)

    def gather(self, futures):
        return [f.result() for f in futures]


def _as_completed(futures, **k):
    for f in _Schedule.sorted(futures):
        f.run()
        yield f


def _progress(*futures, **k):
    pass


_main = None


def load():
    """Import COSIPY.py with the stand-ins in place."""
    global _main
    if _main is None:
        import dask.distributed
        import distributed
        for mod in (distributed, dask.distributed):
            mod.LocalCluster, mod.Client = _Cluster, _Client
            mod.as_completed, mod.progress = _as_completed, _progress
        import COSIPY
        for name, obj in (("LocalCluster", _Cluster), ("Client", _Client), ("as_completed", _as_completed), ("progress", _progress)):
            if hasattr(COSIPY, name):
                setattr(COSIPY, name, obj)
        _main = COSIPY
    return _main


_count = 0


def write_input(ds, name=None):
    """A new name each time: the program may still hold the last one open."""
    global _count
    _count += 1
    base = os.path.join(os.getcwd(), "data", "input")
    if name is None:
        for f in os.listdir(base):
            if f.startswith("input_"):
                os.remove(os.path.join(base, f))
        name = f"input_{_count}.nc"
    ds.to_netcdf(os.path.join(base, name))
    return name


def clean():
    """Remove what earlier runs left, including files xarray still holds open."""
    import gc

    from xarray.backends import file_manager
    gc.collect()
    gc.freeze()  # what lives on is not looked at again, which keeps the next collection fast
    file_manager.FILE_CACHE.clear()
    base = os.path.join(os.getcwd(), "data")
    for d in ("output", "restart"):
        shutil.rmtree(os.path.join(base, d), ignore_errors=True)


def main(config, constants=None, order=None):
    """Run with these settings.  -> (output dataset path, restart paths)"""
    mod = load()
    env.write_configs(os.getcwd(), config, constants)
    _Schedule.order, _Schedule.submitted = order, 0
    before = set(files())
    mod.main()
    return sorted(set(files()) - before)


def files():
    out = []
    for d in ("output", "restart"):
        p = os.path.join(os.getcwd(), "data", d)
        if os.path.isdir(p):
            out += [os.path.join(d, f) for f in os.listdir(p)]
    return out


def load_nc(rel):
    import xarray as xr
    with xr.open_dataset(os.path.join(os.getcwd(), "data", rel)) as ds:
        return ds.load()
