"""C16: random-search estimators withstand gross corruption, for every draw and arrival order."""
import math

import numpy as np

from robsim import ref
from robsim.checks.common import *  # noqa
from robsim.data import _rs

CLS = ["FastMCD", "FastLTSRegression", "SRegression", "MMRegression", "ROBPCA"]


def gen(rng, tier, idx):
    cls = rng.choice(["FastMCD", "FastMCD", "FastMCD", "FastLTSRegression", "FastLTSRegression",
                      "SRegression", "MMRegression", "ROBPCA", "ROBPCA", "ROBPCA"])
    big = cls == "FastMCD" and rng.random() < 0.12
    n = rng.choice([610, 650]) if big else rng.choice([40, 50, 60, 80, 101])
    p = rng.choice([2, 2, 3, 3, 4])
    if cls == "FastMCD" and not big and rng.random() < 0.4:
        p, n = rng.choice([5, 6]), rng.choice([60, 80, 101])
    par = {}
    if cls == "FastMCD":
        par["alpha"] = rng.choice([None, None, 0.5, 0.6, 0.75])
        if not big and rng.random() < 0.2:
            par["n_partitions"] = 2
        if rng.random() < 0.3:
            par["reweighting"] = False
        if rng.random() < 0.3:
            par["random_seed"] = rng.choice([0, 1, 99])
        cap = 1 - (par["alpha"] or 0.5)
    elif cls == "FastLTSRegression":
        par["alpha"] = rng.choice([0.5, 0.5, 0.6, 0.75])
        par["random_state"] = rng.choice([0, 1, 42, 1234])
        if rng.random() < 0.4:
            par["reweighting"] = False
        cap = 1 - par["alpha"]
    elif cls == "ROBPCA":
        p = rng.choice([3, 4, 5, 6])
        par["alpha"] = rng.choice([0.5, 0.6, 0.75, 0.75])
        if rng.random() < 0.6:
            par["n_components"] = 2
        if rng.random() < 0.3:
            par["random_seed"] = rng.choice([0, 1, 99])
        if rng.random() < 0.1:
            par["n_components"] = 1
        cap = 1 - par["alpha"]
    else:
        cap = 0.5
        if rng.random() < 0.3:
            key = "random_state"
            if cls == "SRegression":
                par[key] = rng.choice([0, 1, 1234])
            else:
                par["initial_estimator"] = {"$new": "FastLTSRegression", "params": {"random_state": 3}}
        if cls == "SRegression" and rng.random() < 0.15:
            par["fit_intercept"] = False
    eps = rng.choice([0.0, 0.05, 0.1, 0.15, 0.2, 0.2, 0.25, 0.3, 0.35])
    if cls == "FastMCD" and "n_partitions" not in par and not big and rng.random() < 0.4:
        eps = 0.4
    while eps > cap - 0.1 + 1e-9:
        eps -= 0.05
    far = rng.choice([30.0, 100.0, 1e3, 1e6])
    if eps > 0.26 and far < 100:
        far = 100.0
    return {"cls": cls, "params": par, "n": n, "p": p, "seed": rng.randrange(1 << 30),
            "eps": round(max(eps, 0.0), 2),
            "how": rng.choice(["cluster", "cluster", "point", "scatter", "line", "two", "axis"]),
            "far": far,
            "lev": rng.choice([0.0, 0.0, 1.0, 1.0]),
            "order": rng.choice(["first", "last", "spread", "random", "random"]),
            "shift": rng.choice([0.0, 0.0, 100.0]), "cscale": rng.choice([1.0, 1.0, 1e3, 1e-3]),
            "noise": rng.choice([0.5, 1.0])}


def arrive(scn, n, m, g):
    """Positions at which the corrupted records arrive."""
    o = scn["order"]
    if o == "first":
        return np.arange(m)
    if o == "last":
        return np.arange(n - m, n)
    if o == "spread":
        return np.unique(np.linspace(0, n - 1, m).round().astype(int)) if m else np.arange(0)
    return np.sort(g.permutation(n)[:m])


def corrupt(scn, m, p, g):
    """m gross values in units of the clean spread (identity covariance)."""
    far, how = scn["far"], scn["how"]
    u = g.normal(size=p)
    u /= np.linalg.norm(u)
    if how == "cluster":
        return far * u + 0.3 * g.normal(size=(m, p))
    if how == "point":
        return np.tile(far * u, (m, 1))
    if how == "line":
        return np.outer(far * (1 + g.uniform(0, 1, size=m)), u)
    if how == "two":
        return np.where(np.arange(m)[:, None] % 2 == 0, 1, -1) * far * u + 0.3 * g.normal(size=(m, p))
    if how == "axis":
        Z = g.normal(size=(m, p))
        Z[:, g.randint(p)] += far
        return Z
    Z = g.normal(size=(m, p))
    Z /= np.linalg.norm(Z, axis=1)[:, None]
    return far * (1 + g.uniform(0, 1, size=(m, 1))) * Z


def make(scn):
    g = _rs(scn["seed"])
    n, p = scn["n"], scn["p"]
    m = int(scn["eps"] * n)
    Z = g.normal(size=(n, p))
    pos = arrive(scn, n, m, g)
    m = len(pos)
    B = corrupt(scn, m, p, g)
    good = np.ones(n, bool)
    good[pos] = False
    if scn["cls"] in ("FastMCD", "ROBPCA"):
        A = np.eye(p) + 0.5 * np.tril(g.uniform(-1, 1, size=(p, p)), -1)
        if scn["cls"] == "ROBPCA":
            Q, _ = np.linalg.qr(g.normal(size=(p, p)))
            A = (Q * np.array([6.0, 4.0] + [0.5] * (p - 2))) @ Q.T
        Z[pos] = B
        X = Z @ A.T
        if scn["cls"] == "FastMCD" and scn["cscale"] != 1.0:
            X = X * np.where(np.arange(p) % 2 == 0, 1.0, scn["cscale"])
        return X + scn["shift"], None, good, A
    beta = g.uniform(-3, 3, size=p)
    icpt = 2.0 if scn["params"].get("fit_intercept", True) else 0.0
    y = Z @ beta + icpt + scn["noise"] * g.normal(size=n)
    V = corrupt(scn, m, 1, g)[:, 0]
    if scn["lev"]:
        Z[pos] = B
        y[pos] = icpt + (V if scn["how"] != "line" else -(B @ beta))
    else:
        y[pos] = Z[pos] @ beta + V * scn["noise"]
    X = Z
    if scn["cscale"] != 1.0:
        X = X * np.where(np.arange(p) % 2 == 0, 1.0, scn["cscale"])
    return X, y + (scn["shift"] if icpt else 0), good, None


def fit(scn, X, y):
    with sched.Solo(limit=60_000_000) as t:
        try:
            m = catalog.construct(scn["cls"], scn["params"])
            if y is None:
                m.fit(X)
            elif scn["cls"] == "FastLTSRegression":
                m.fit(X, y, verbosity=40)
            else:
                m.fit(X, y)
            return m, t
        except (Exception, sched.StepLimit) as e:
            return e, t


def run(scn):
    r = R()
    X, y, good, A = make(scn)
    n, p = X.shape
    seams.entropy_ident(0)
    m, t = fit(scn, X, y)
    r.stat("steps", t.steps)
    r.sig = cmp.digest([scn])
    what = f"{scn['cls']}({scn['params']}) n={n} p={p}, {int((~good).sum())} corrupted records " \
           f"({scn['how']}, {scn['far']:g} times the clean spread, arriving {scn['order']})"
    r.fault("corrupted record", int((~good).sum()))
    r.nontrivial = bool((~good).any())
    if isinstance(m, BaseException):
        r.fail(f"{scn['cls']}:raised", f"{what}: {m!r}")
        return r.done()
    eps = float((~good).mean())
    if scn["cls"] == "FastMCD":
        mu, S = ref.cov(X[good])
        d = np.asarray(m.location_) - mu
        sd = np.sqrt(np.diag(S))
        K = S / np.outer(sd, sd)
        loc = math.sqrt(float((d / sd) @ np.linalg.solve(K, d / sd)))
        ev = np.linalg.eigvals(np.linalg.solve(K, np.asarray(m.covariance_) / np.outer(sd, sd))).real
        shape = float(np.max(np.abs(np.log(np.maximum(ev, 1e-300)))))
        r.track = {"loc": loc, "shape": shape}
        lim = LIM["FastMCD"]
        r.log(cmp.digest([m.location_, m.covariance_]))
    elif scn["cls"] == "ROBPCA":
        mu, S = ref.cov(X[good])
        w, Q = np.linalg.eigh(S)
        d = (np.asarray(m.location_) - mu) @ Q / np.sqrt(w)
        C = np.asarray(m.components_)
        k = min(2, C.shape[1])
        T = Q[:, ::-1][:, :2]
        # the leading two components span the plane of the clean records
        s = np.linalg.svd(T.T @ C[:, :k], compute_uv=False)
        ang = float(np.sqrt(max(0.0, 1 - min(s) ** 2)))
        r.track = {"loc": float(np.linalg.norm(d)), "angle": ang}
        lim = LIM["ROBPCA"]
        r.log(cmp.digest([m.location_, C]))
    else:
        icpt = scn["params"].get("fit_intercept", True)
        G = X[good]
        B = np.column_stack([np.ones(len(G)), G]) if icpt else G
        b = np.linalg.lstsq(B / np.abs(B).max(axis=0), y[good], rcond=None)[0] / np.abs(B).max(axis=0)
        with sched.Solo(limit=1_000_000):
            pr = np.asarray(m.predict(G)).ravel()
        dev = float(np.sqrt(np.mean((pr - B @ b) ** 2))) / scn["noise"]
        sc = abs(math.log(max(float(m.scale), 1e-300) / scn["noise"]))
        r.track = {"fit": dev, "scale": sc}
        lim = LIM[scn["cls"]]
        r.log(cmp.digest([pr, float(m.scale)]))
    if scn["cls"] == "FastMCD" and any(not v <= sum(np.multiply(lim[k], (1, eps)))
                                       for k, v in r.track.items()):
        # is the contaminated subset the true optimum of the criterion?
        h = ref.mcd_h(scn["params"].get("alpha"), n, p)
        sub = np.flatnonzero(good)
        for _ in range(50):
            a, C = ref.cov(X[sub])
            sub = np.sort(np.argsort(ref.dist2(X, a, C), kind="stable")[:h])
        if np.linalg.det(m.best_subset.scale) < np.linalg.det(ref.cov(X[sub])[1]):
            r.stat("criterion itself breaks")
            return r.done()
    for k, v in r.track.items():
        q = lim[k][0] + lim[k][1] * eps
        if not v <= q:
            r.fail(f"{scn['cls']}:{k}", f"{what}: {k} is off by {v:.3g} times the clean records' noise "
                                        f"(limit {q:.2f})")
    r.stat("checked:" + scn["cls"])
    return r.done()


# multiples of the noise of the clean records: constant + slope * corrupted fraction
LIM = {"FastMCD": {"loc": (1.2, 2.0), "shape": (3.0, 2.0)},
       "ROBPCA": {"loc": (1.0, 5.0), "angle": (0.15, 0.3)},
       "FastLTSRegression": {"fit": (2.5, 45.0), "scale": (2.0, 9.0)},
       "SRegression": {"fit": (2.5, 45.0), "scale": (2.0, 9.0)},
       "MMRegression": {"fit": (2.5, 45.0), "scale": (2.0, 9.0)}}
