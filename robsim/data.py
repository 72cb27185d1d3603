"""Data recipes: a small JSON object that describes a data set completely."""
import numpy as np
import pandas as pd


def _rs(seed):
    """A generator that takes nothing from the (simulated) operating-system entropy."""
    return _RS(_MT(seed))


_RS, _MT = np.random.RandomState, np.random.MT19937


def recipe(rng, n=None, p=None, kind=None, **kw):
    """Draw a recipe with the simulator's generator `rng` (random.Random)."""
    if n is None:
        n = rng.choice([12, 16, 20, 25, 30, 40, 60])
    if p is None:
        p = rng.choice([2, 2, 3, 3, 4, 5])
    if kind is None:
        kind = rng.choice(["gauss", "gauss", "gauss", "t", "skew"])
    r = {"seed": rng.randrange(1 << 30), "n": n, "p": p, "kind": kind}
    r.update(kw)
    return r


def decorate(rng, r, nan=False, forms=("array", "frame", "fortran", "strided")):
    """Add contamination / representation at random."""
    if rng.random() < 0.5:
        r["out"] = {"frac": rng.choice([0.05, 0.1, 0.2, 0.3]),
                    "type": rng.choice(["cluster", "scatter", "point", "cell"]),
                    "size": rng.choice([5, 20, 100, 1e4])}
    if rng.random() < 0.15:
        r["round"] = rng.choice([0, 1])
    if rng.random() < 0.1:
        r["dup"] = rng.choice([1, 2, 3])
    if rng.random() < 0.2:
        r["colscale"] = rng.choice([1e-3, 1e3])
    if nan and rng.random() < 0.6:
        r["nan"] = rng.choice([0.02, 0.05, 0.1])
    r["form"] = rng.choice(list(forms))
    return r


def clean_matrix(r):
    g = _rs(r["seed"])
    n, p = r["n"], r["p"]
    if r["kind"] == "t":
        Z = g.standard_t(4, size=(n, p))
    elif r["kind"] == "skew":
        Z = np.exp(0.6 * g.normal(size=(n, p)))
    elif r["kind"] == "grid":
        Z = g.randint(0, 4, size=(n, p)).astype(float)
    elif r["kind"] == "ramp":  # both signs, dense over many orders of magnitude
        Z = np.exp(np.linspace(-3, 5, n * p)) * np.where(np.arange(n * p) % 2, 1.0, -1.0)
        Z = g.permutation(Z).reshape(n, p)
    elif r["kind"] == "unif":
        Z = g.uniform(-2, 2, size=(n, p))
    else:
        Z = g.normal(size=(n, p))
    rho = r.get("rho", 0.5)
    if rho and p > 1 and r["kind"] != "grid":
        A = np.eye(p) + rho * np.tril(g.uniform(-1, 1, size=(p, p)), -1)
        Z = Z @ A.T
    if r.get("colscale"):
        Z = Z * np.where(np.arange(p) % 2 == 0, 1.0, r["colscale"])
    if r.get("scale"):
        Z = Z * r["scale"]
    if r.get("shift"):
        Z = Z + r["shift"]
    return Z, g


def matrix(r):
    X, g = clean_matrix(r)
    n, p = X.shape
    out = r.get("out")
    if out:
        k = int(out["frac"] * n)
        rows = g.permutation(n)[:k]
        s = out["size"] * max(1e-300, float(np.median(np.std(X, axis=0))) or 1.0)
        if out["type"] == "cluster":
            X[rows] = s * np.ones(p) + 0.1 * g.normal(size=(k, p)) * s / max(out["size"], 1)
        elif out["type"] == "point":
            X[rows] = s
        elif out["type"] == "cell":
            for i in rows:
                X[i, g.randint(p)] = s * (1 if g.rand() < 0.5 else -1)
        else:
            X[rows] = X[rows] + s * g.normal(size=(k, p))
    if r.get("round") is not None:
        X = np.round(X, r["round"])
    if r.get("dup"):
        k = min(r["dup"], n // 3)
        if k:
            X[n - k:] = X[:k]
    for k in ("deg", "deg2"):
        if r.get(k):
            from robsim.checks.c14 import shape

            with np.errstate(all="ignore"):
                X = shape(X, r[k], g)
    if r.get("const"):
        X[:, r["const"] % p] = 1.5
    if r.get("nan"):
        M = g.rand(n, p) < r["nan"]
        X[M] = np.nan
        for k in range(int(r.get("inf") or 0)):
            X[g.randint(n), g.randint(p)] = -np.inf if k % 2 else np.inf
    if r.get("pos"):
        X = np.abs(X) + 0.1
    if r.get("integer"):
        X = np.round(X * (3 if r["integer"] is True else r["integer"]))
        f = r.get("into")
        if f:  # within the range of a narrow integer type
            lo, hi = np.iinfo(f).min, np.iinfo(f).max
            X = X + (hi // 2 if lo == 0 else 0)
            X = np.clip(X, lo, hi)
    for k, step in enumerate(r.get("ties") or []):
        if step:
            j = k % p
            X[:, j] = np.round(X[:, j] / step) * step
    if r.get("tiejit"):
        # a relative disturbance that is the same for equal values of a column
        q = _rs((r["seed"] + 517 + r.get("jseed", 0)) % (1 << 31))
        for j in range(p):
            v, inv = np.unique(X[:, j], return_inverse=True)
            X[:, j] = (v * (1 + r["tiejit"] * q.normal(size=len(v))))[inv]
    if r.get("jitter"):
        X = X * (1 + r["jitter"] * _rs((r["seed"] + 913 + r.get("jseed", 0)) % (1 << 31)).normal(size=X.shape))
    return X


def order(r, X):
    """The order in which the records of `X` arrive (None: as generated)."""
    o = r.get("order")
    if not o:
        return None
    n = len(X)
    if o["kind"] == "reverse":
        return np.arange(n)[::-1]
    if o["kind"] == "rotate":
        return np.roll(np.arange(n), 1 + o["seed"] % max(1, n - 1))
    if o["kind"] in ("sorted", "late"):
        v = np.nan_to_num(np.asarray(X, float)[:, o["seed"] % X.shape[1]])
        return np.argsort(np.abs(v - np.median(v)) if o["kind"] == "late" else v, kind="stable")
    return _rs(o["seed"] % (1 << 31)).permutation(n)


def labels(kind, n):
    i = np.arange(n)
    return {"range": None, "labels": [f"r{k}" for k in i], "shift": list(range(5, 5 + n)),
            "dupl": list(i // 2), "rev": list(i[::-1]), "zero": [0] * n, "float": list(i / 3),
            "shuf": list(_rs(n).permutation(n)), "cycle": list(i % 7),
            "mixed": [int(k) if k % 3 else f"r{k % 5}" for k in i],
            "date": list(pd.date_range("2020-01-01", periods=n)[::-1]),
            "multi": pd.MultiIndex.from_arrays([i % 3, i // 3])}[kind]


INTS = ("int", "int32", "int16", "uint8", "uint16", "uint32")


def form(X, r):
    f = r.get("form", "array")
    if f == "frame":
        idx = labels(r.get("index", "range"), len(X))
        return pd.DataFrame(np.array(X), columns=[f"c{j}" for j in range(X.shape[1])], index=idx)
    if f == "fortran":
        return np.asfortranarray(X)
    if f in INTS:
        return np.ascontiguousarray(X).astype(f + "64" if f == "int" else f)
    if f == "intframe":
        return pd.DataFrame(np.array(X).astype(np.int64), columns=[f"c{j}" for j in range(X.shape[1])])
    if f == "narrowframe":
        return pd.DataFrame(np.array(X).astype(r["into"]), columns=[f"c{j}" for j in range(X.shape[1])])
    if f == "readonly":
        X = np.ascontiguousarray(X)
        X.setflags(write=False)
        return X
    if f == "strided":
        big = np.full((X.shape[0] * 2, X.shape[1]), 7.25)
        big[::2] = X
        return big[::2]
    return np.ascontiguousarray(X)


def build(r):
    d = build0(r)
    return spoil(d, r["spoil"]) if r.get("spoil") else d


def spoil(d, how):
    """Data that a fit or query should reject (or survive): wrong type, shape or content."""
    X, y = d if isinstance(d, tuple) else (d, None)
    if how == "text":
        X = X.astype(object) if not isinstance(X, pd.DataFrame) else X.astype(object)
        if isinstance(X, pd.DataFrame):
            X.iloc[0] = "x"
        else:
            X = np.array(X)
            X[0] = "x"
    elif how == "allnan":
        X = X * np.nan if not isinstance(X, pd.DataFrame) else X.map(lambda v: np.nan)
    elif how == "onecell":
        X = X.copy()
        if isinstance(X, pd.DataFrame):
            X.iloc[1, 0] = np.nan
        else:
            X[1] = np.nan
    elif how == "flat":
        X = np.asarray(X).ravel()
    elif how == "one":
        X, y = X[:1], (None if y is None else y[:1])
    elif how == "empty":
        X, y = X[:0], (None if y is None else y[:0])
    elif how == "zeros":
        X = X * 0 if not isinstance(X, pd.DataFrame) else X.map(lambda v: 0.0)
    elif how == "wide":
        X = X[:2], (None if y is None else y[:2])
        X, y = X
    elif how == "shorty" and y is not None:
        y = y[:-1]
    elif how == "none":
        X = None
    return X if y is None else (X, y)


SPOILS = ["text", "allnan", "onecell", "flat", "one", "empty", "zeros", "wide", "shorty", "none"]


def build0(r):
    """r -> X (array or frame); r['what'] selects univariate / regression variants."""
    what = r.get("what", "X")
    X = matrix(r)
    perm = order(r, X)
    if what == "X":
        return form(X if perm is None else X[perm], r)
    if what == "x":
        v = np.ascontiguousarray(X[:, 0] if perm is None else X[perm, 0])
        if r.get("form") in INTS:
            return v.astype("int64" if r["form"] == "int" else r["form"])
        if r.get("form") == "strided":
            v = np.repeat(v, 3)[::3]
        if r.get("form") == "readonly":
            v.setflags(write=False)
        return v
    if what == "xy":
        g = _rs((r["seed"] + 77) % (1 << 31))
        beta = np.round(g.uniform(-3, 3, size=X.shape[1]), 2)
        e = g.standard_t(2, size=len(X)) if r.get("noise", 1) < 0.05 else g.normal(size=len(X))
        y = X @ beta + r.get("b0", 1.0) + r.get("noise", 0.5) * e
        v = r.get("vout")
        if v:
            k = int(v["frac"] * len(X))
            rows = g.permutation(len(X))[:k]
            if v.get("lev"):
                X[rows] = X[rows] + v["lev"]
            y[rows] = y[rows] + v["size"] * (1 if v.get("same", True) else g.choice([-1, 1], k))
        if r.get("round") is not None:
            y = np.round(y, r["round"])
        if r.get("integer"):
            y = np.round(y)
        if perm is not None:
            X, y = X[perm], y[perm]
        Xf = form(X, r)
        if r.get("form") in INTS + ("intframe",):
            y = y.astype(np.int64)
        if isinstance(Xf, pd.DataFrame):
            yi = {"rev": lambda i: i[::-1], "range": lambda i: pd.RangeIndex(len(i))}
            return Xf, pd.Series(y, index=yi.get(r.get("yindex"), lambda i: i)(Xf.index), name="y")
        if r.get("form") == "readonly":
            y.setflags(write=False)
        return Xf, y
    if what == "messy":
        df = pd.DataFrame(X, columns=[f"c{j}" for j in range(X.shape[1])])
        g = _rs((r["seed"] + 5) % (1 << 31))
        extra = r.get("extra", [])
        if "text" in extra:
            df["text"] = [f"s{i % 5}" for i in range(len(df))]
        if "rownum" in extra:
            df["rownum"] = np.arange(len(df))
        if "disc" in extra:
            df["disc"] = (np.arange(len(df)) % 2).astype(float)
        if "const" in extra:
            df["const"] = np.where(np.arange(len(df)) < len(df) - 4, 1.0, g.normal(size=len(df)))
        if "holes" in extra:
            h = g.normal(size=len(df))
            h[g.permutation(len(df))[: int(0.7 * len(df))]] = np.nan
            df["holes"] = h
        for j in range(3):
            if "texts" in extra:
                df[f"name{j}"] = [f"s{(i * (j + 1)) % 7}" for i in range(len(df))]
            if "discs" in extra:
                df[f"flag{j}"] = ((np.arange(len(df)) // (j + 1)) % 2).astype(float)
            if "consts" in extra:
                df[f"level{j}"] = np.where(np.arange(len(df)) < len(df) - 4, 1.0 + j,
                                           g.normal(size=len(df)))
            if "holess" in extra:
                h = g.normal(size=len(df))
                h[g.permutation(len(df))[: int(0.7 * len(df))]] = np.nan
                df[f"gap{j}"] = h
        if "badrows" in extra:
            df.iloc[g.randint(len(df)), : max(1, int(0.8 * df.shape[1]))] = np.nan
        if r.get("index", "range") != "range":
            df.index = labels(r["index"], len(df))
        return df if perm is None else df.iloc[perm]
    raise ValueError(what)
