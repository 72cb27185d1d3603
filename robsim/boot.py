"""Import the real robpy from the working tree under test, behind the simulator's import-time seams.

* Only sources are read (never cached byte code), so a check always sees the tree as it is now.
* `threading.Lock`/`RLock` asked for by robpy modules become simulator locks.
"""
import importlib.abc
import importlib.machinery
import os
import sys
import threading

ROOT = os.environ.get("ROBSIM_REPO", "/repo")
PKG_DIR = os.path.realpath(os.path.join(ROOT, "robpy"))


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "robpy" and not fullname.startswith("robpy."):
            return None
        finder = importlib.machinery.FileFinder(
            os.path.dirname(PKG_DIR) if path is None else list(path)[0],
            (_Loader, [".py"]),
        )
        return finder.find_spec(fullname)


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _lock_factory(real, kind):
    def factory(*a, **k):
        g = sys._getframe(1).f_globals.get("__name__", "")
        if g == "robpy" or g.startswith("robpy."):
            from robsim import sched

            return sched.SimLock(reentrant=(kind == "rlock"))
        return real(*a, **k)

    return factory


_done = False


def boot():
    """Import robpy and warm up third-party machinery (no robpy operation is executed)."""
    global _done
    if _done:
        return
    _done = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    threading.Lock = _lock_factory(_real_lock, "lock")
    threading.RLock = _lock_factory(_real_rlock, "rlock")
    import warnings

    warnings.simplefilter("default")
    import logging  # noqa
    import numpy as np
    import pandas as pd
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import scipy.stats, scipy.linalg  # noqa
    import sklearn.covariance, sklearn.linear_model, sklearn.decomposition  # noqa
    import statsmodels.api as sm
    import seaborn as sns
    import tqdm.auto, tqdm.std

    tqdm.std.tqdm.monitor_interval = 0
    # not the default multiprocessing lock: a semaphore would be shared by all simulated processes
    tqdm.std.tqdm.set_lock(_real_rlock())
    import robpy.covariance, robpy.covariance.initial_ddcw, robpy.regression, robpy.pca  # noqa
    import robpy.preprocessing, robpy.outliers, robpy.univariate, robpy.datasets  # noqa
    import robpy.utils.outlyingness, robpy.utils.median, robpy.utils.general  # noqa
    import robpy.utils.distance, robpy.utils.rho, robpy.utils.logging  # noqa
    import robpy.preprocessing.utils, robpy.pca.base, robpy.regression.lts  # noqa

    path = os.path.realpath(sys.modules["robpy"].__path__[0] if not getattr(
        sys.modules["robpy"], "__file__", None) else os.path.dirname(sys.modules["robpy"].__file__))
    if path != PKG_DIR:
        raise RuntimeError(f"robpy imported from {path}, expected {PKG_DIR}")
    # warm-up of third-party lazies
    rng = np.random.RandomState(0)
    A = rng.normal(size=(12, 2))
    y = A[:, 0] + rng.normal(size=12)
    with open(os.devnull, "w") as null:
        for _ in tqdm.auto.tqdm(range(2), file=null):
            pass
    sm.WLS(y, sm.add_constant(A), weights=np.ones(12)).fit().resid
    from sklearn.linear_model import LinearRegression
    from sklearn.decomposition import PCA
    from sklearn.covariance import EmpiricalCovariance

    LinearRegression().fit(A, y).predict(A)
    PCA().fit_transform(A)
    EmpiricalCovariance().fit(A).mahalanobis(A)
    fig, ax = plt.subplots(1, 1)
    ax.scatter(A[:, 0], A[:, 1])
    ax.set_xlabel("x")
    sns.heatmap(pd.DataFrame(A), ax=ax, annot=True)
    fig.canvas.draw()
    plt.close("all")
    pd.DataFrame(A).describe().to_string()
    np.linalg.matrix_rank(A)
    from statsmodels.stats.stattools import medcouple

    medcouple(A, axis=0)
    scipy.stats.kendalltau(A[:, 0], A[:, 1])
    scipy.linalg.sqrtm(np.eye(2))


_functions = None


def robpy_code_objects():
    """All code objects defined in robpy's modules (functions, methods, nested functions)."""
    import types

    seen = {}
    prefix = PKG_DIR + os.sep

    def add(code):
        if code in seen or not os.path.realpath(code.co_filename).startswith(prefix):
            return
        seen[code] = True
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    visited = set()

    def walk(o, depth=0):
        if id(o) in visited or depth > 4:
            return
        visited.add(id(o))
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    walk(f, depth + 1)
        elif isinstance(o, types.FunctionType):
            add(o.__code__)
            w = getattr(o, "__wrapped__", None)
            if w is not None:
                walk(w, depth + 1)
            for cell in o.__closure__ or ():
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if isinstance(v, (types.FunctionType, property, staticmethod)):
                    walk(v, depth + 1)
        elif isinstance(o, type):
            if getattr(o, "__module__", "").startswith("robpy"):
                for v in list(vars(o).values()):
                    walk(v, depth + 1)
        elif hasattr(o, "func") and hasattr(o, "attrname"):  # cached_property
            walk(o.func, depth + 1)
        elif hasattr(o, "__wrapped__"):
            walk(o.__wrapped__, depth + 1)

    for name, mod in list(sys.modules.items()):
        if name == "robpy" or name.startswith("robpy."):
            for v in list(vars(mod).values()):
                walk(v)
    return list(seen)
