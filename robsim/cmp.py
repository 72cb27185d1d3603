"""Encoding of results into plain comparable values, and tolerant comparison."""
import dataclasses
import hashlib
import pickle
import re

import numpy as np
import pandas as pd


def enc(x, depth=0):
    if depth > 8:
        return "<deep>"
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, complex):
        return ["complex", x.real, x.imag]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["objarr", list(x.shape), [enc(v, depth + 1) for v in x.ravel().tolist()]]
        return np.array(x, order="C", copy=True)
    if isinstance(x, pd.DataFrame):
        return {"df": [enc(x.iloc[:, j].to_numpy(), depth + 1) for j in range(x.shape[1])],
                "cols": [str(c) for c in x.columns], "idx": [str(i) for i in x.index],
                "dtypes": [str(d) for d in x.dtypes]}
    if isinstance(x, pd.Series):
        return {"ser": enc(x.to_numpy(), depth + 1), "idx": [str(i) for i in x.index],
                "name": str(x.name)}
    if isinstance(x, BaseException):
        return enc_exc(x)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return {"dc": type(x).__name__,
                **{f.name: enc(getattr(x, f.name, None), depth + 1)
                   for f in dataclasses.fields(x)}}
    if isinstance(x, dict):
        return {str(k): enc(v, depth + 1) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, (list, tuple, pd.Index)):
        return [enc(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(str(v) for v in x)
    mod = type(x).__module__ or ""
    if mod.startswith("matplotlib"):
        return enc_mpl(x, depth)
    if mod.startswith("statsmodels"):
        return {"params": enc(np.asarray(x.params), depth + 1)}
    if type(x).__name__ == "LinearRegression":
        return {"coef": enc(np.asarray(x.coef_), depth + 1),
                "intercept": enc(np.asarray(x.intercept_), depth + 1)}
    if mod.startswith("robpy"):
        from robsim import catalog

        return {"obj": type(x).__name__, "state": catalog.observe(x)}
    if callable(x):
        return "<callable %s>" % getattr(x, "__qualname__", type(x).__name__)
    return "<%s>" % type(x).__name__


def enc_mpl(x, depth):
    import matplotlib.axes
    import matplotlib.figure

    if isinstance(x, matplotlib.figure.Figure):
        return {"fig": [enc_mpl(a, depth + 1) for a in x.axes]}
    if isinstance(x, matplotlib.axes.Axes):
        return {
            "coll": [np.asarray(c.get_offsets(), float) if len(np.shape(c.get_offsets())) == 2
                     else [] for c in x.collections],
            "arr": [np.ma.filled(np.asarray(c.get_array(), float), np.nan)
                    for c in x.collections if c.get_array() is not None],
            "lines": [np.asarray(np.array(ln.get_xydata(), dtype=float)) for ln in x.lines],
            "labels": [x.get_xlabel(), x.get_ylabel(), x.get_title()],
            "texts": [t.get_text() for t in x.texts],
        }
    return "<mpl %s>" % type(x).__name__


_addr = re.compile(r"0x[0-9a-fA-F]+")


def enc_exc(e):
    return {"exc": type(e).__name__, "msg": _addr.sub("0x", str(e))[:300]}


def diff(a, b, rtol=1e-6, atol=1e-9, path=""):
    """None if equal up to tolerance, else a short description of the first difference."""
    a, b = (list(v) if isinstance(v, tuple) else v for v in (a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, (int, float)) or isinstance(b, (int, float)):
            a, b = np.asarray(a), np.asarray(b)
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {_s(a)} != {_s(b)}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} != {b.shape}"
        if a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
            if a.size == 0:
                return None
            if a.dtype.kind == "b" and b.dtype.kind == "b":
                bad = a != b
            else:
                fa, fb = a.astype(complex if "c" in (a.dtype.kind, b.dtype.kind) else float), \
                    b.astype(complex if "c" in (a.dtype.kind, b.dtype.kind) else float)
                fin = np.abs(fa[np.isfinite(fa)])
                sc = float(fin.max()) if fin.size else 0.0
                with np.errstate(all="ignore"):
                    bad = ~((fa == fb) | (np.isnan(fa) & np.isnan(fb))
                            | (np.abs(fa - fb) <= atol + rtol * sc))
            if bad.any():
                i = np.argwhere(bad)[0]
                return (f"{path}{list(map(int, i))}: {a[tuple(i)]!r} != {b[tuple(i)]!r} "
                        f"({int(bad.sum())} of {bad.size} differ)")
            return None
        return None if a.tolist() == b.tolist() else f"{path}: arrays differ"
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else f"{path}: {a} != {b}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return f"{path}: {a!r} != {b!r}"
    if type(a) is not type(b):
        return f"{path}: {_s(a)} != {_s(b)}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k}: present only on one side ({_s(a.get(k, b.get(k)))})"
            d = diff(a[k], b[k], rtol, atol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, rtol, atol, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {_s(a)} != {_s(b)}"


def _s(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


def digest(x):
    h = hashlib.sha256()

    def walk(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.dtype).encode() + str(v.shape).encode())
            if v.dtype.kind == "f":
                v = np.where(np.isnan(v), np.nan, v + 0.0)
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, dict):
            for k in sorted(v):
                h.update(str(k).encode())
                walk(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for u in v:
                walk(u)
            h.update(b"]")
        else:
            h.update(repr(v).encode())

    walk(x)
    return h.hexdigest()[:16]


def finite(x):
    if isinstance(x, np.ndarray):
        return bool(np.isfinite(x).all()) if x.dtype.kind in "fc" else True
    if isinstance(x, float):
        return bool(np.isfinite(x))
    if isinstance(x, dict):
        return all(finite(v) for v in x.values())
    if isinstance(x, list):
        return all(finite(v) for v in x)
    return True


dumps = pickle.dumps
loads = pickle.loads
