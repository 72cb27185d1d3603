"""C17: lost and corrupted cells are contained to themselves (DDC, CellMCD)."""
import math

import numpy as np
import pandas as pd

from robsim.checks.common import *  # noqa
from robsim.data import _rs

GROSS = 12.0


def gen(rng, tier, idx):
    cls = rng.choice(["DDC", "CellMCD"])
    p = rng.choice([2, 3, 3, 4, 5, 6])
    n = rng.choice([40, 50, 60, 80, 81, 120])
    scn = {"cls": cls, "n": n, "p": p, "seed": rng.randrange(1 << 30),
           "rho": rng.choice([0.0, 0.4, 0.7, 0.9]), "kind": rng.choice(["gauss", "gauss", "unif"]),
           "scale": rng.choice([1.0, 1.0, 50.0, 1e-2 if cls == "CellMCD" else 3.0, 1e5]),
           "shift": rng.choice([0.0, 0.0, 10.0, -1000.0]),
           "labels": rng.choice(["range", "labels", "shift"]),
           "frame": cls == "DDC" or rng.random() < 0.5,
           "fit_faults": faults(rng, n, p, cls), "new_n": rng.choice([1, 5, 20, 40]),
           "order": rng.random() < 0.3}
    scn["new_faults"] = faults(rng, scn["new_n"], p, cls, dense=True) if cls == "DDC" else []
    if cls == "DDC":
        scn["params"] = {}
        if rng.random() < 0.4:
            scn["params"]["chi2_quantile"] = rng.choice([0.9, 0.95, 0.99, 0.999])
        if rng.random() < 0.3:
            scn["params"]["min_correlation"] = rng.choice([0.3, 0.5, 0.7])
    else:
        scn["params"] = {}
        if rng.random() < 0.6:
            scn["params"]["alpha"] = rng.choice([0.5, 0.6, 0.75, 0.8, 0.7])
        if rng.random() < 0.3:
            scn["params"]["quantile"] = rng.choice([0.975, 0.99, 0.995])
        if rng.random() < 0.3:
            scn["params"]["crit"] = rng.choice([1e-6, 1e-4, 1e-2])
        if rng.random() < 0.3:
            scn["params"]["max_c_steps"] = rng.choice([1, 2, 5, 100])
        if rng.random() < 0.2:
            scn["params"]["min_eigenvalue"] = rng.choice([1e-6, 1e-3])
    return scn


def faults(rng, n, p, cls, dense=False):
    """A list of cell faults: [row, column, kind, magnitude in units of the column's spread]."""
    out = {}
    cap = 0.07 if not dense else 0.3
    per = [0] * p
    kinds = ["nan"] + (["inf", "-inf"] if cls == "DDC" else [])

    def lose(i, j, force=False):
        if (i, j) not in out and (force or dense or per[j] + 1 <= cap * n):
            per[j] += 1
            out[i, j] = [i, j, rng.choice(kinds), 0.0]

    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(["cells", "burst", "record", "half", "pair"])
        if k == "cells":
            for _ in range(rng.choice([1, 3, 10])):
                lose(rng.randrange(n), rng.randrange(p))
        elif k == "burst":
            j, a = rng.randrange(p), rng.randrange(n)
            for i in range(a, min(n, a + rng.choice([2, 5, 9]))):
                lose(i, j)
        elif k == "record":
            i = rng.randrange(n)
            for j in range(p):
                lose(i, j)
        elif k == "half":
            i, keep = rng.randrange(n), rng.randrange(p)
            for j in range(p):
                if j != keep:
                    lose(i, j)
        else:
            a, b = rng.randrange(p), rng.randrange(p)
            for i in rng.sample(range(n), min(n, 3)):
                lose(i, a)
                lose(i, b)
    gross = rng.choice([0, 1, 1, 2, 4, 8])
    used = set()
    gcol = [0] * p
    for _ in range(gross):
        i, j = rng.randrange(n), rng.randrange(p)
        if i in used or (i, j) in out or any((i, q) in out for q in range(p)) or \
                (not dense and gcol[j] + 1 > 0.05 * n):
            continue
        used.add(i)
        gcol[j] += 1
        out[i, j] = [i, j, "gross", rng.choice([1, -1]) * rng.choice([GROSS, 20.0, 1e3, 1e6])]
    return [out[k] for k in sorted(out)]


def table(scn, n, salt):
    g = _rs((scn["seed"] + salt) % (1 << 31))
    p = scn["p"]
    Z = g.normal(size=(n, p)) if scn["kind"] == "gauss" else g.uniform(-1.7, 1.7, size=(n, p))
    gl = _rs((scn["seed"] + 999) % (1 << 31))
    load = np.sqrt(scn["rho"]) * gl.choice([-1, 1], size=p)
    Z = np.sqrt(1 - scn["rho"]) * Z + np.outer(g.normal(size=n), load)
    return Z * scn["scale"] + scn["shift"]


def damage(X, fl, scale):
    Y = X.copy()
    for i, j, k, m in fl:
        if i >= Y.shape[0] or j >= Y.shape[1]:
            continue
        Y[i, j] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}.get(k, np.nan) if k != "gross" \
            else np.median(X[:, j]) + m * scale
    return Y


def frame(scn, X):
    idx = {"range": None, "labels": [f"r{i}" for i in range(len(X))],
           "shift": list(range(7, 7 + len(X)))}[scn["labels"]]
    return pd.DataFrame(np.array(X), columns=[f"c{j}" for j in range(X.shape[1])], index=idx)


def call(fn):
    with sched.Solo(limit=20_000_000) as t:
        try:
            return fn(), t.steps
        except (Exception, sched.StepLimit) as e:
            return e, t.steps


def run(scn):
    r = R()
    import robpy.covariance as rc
    import robpy.outliers as ro

    X = table(scn, scn["n"], 0)
    fl = [f for f in scn["fit_faults"] if f[0] < scn["n"] and f[1] < scn["p"]]
    Y = damage(X, fl, scn["scale"])
    lost = ~np.isfinite(Y)
    gross = np.zeros(Y.shape, bool)
    for i, j, k, _ in fl:
        r.fault({"nan": "lost cell", "inf": "infinite cell", "-inf": "infinite cell",
                 "gross": "corrupted cell"}[k])
        gross[i, j] = k == "gross"
    if lost.all(axis=1).any():
        r.fault("lost record", int(lost.all(axis=1).sum()))
    seams.entropy_ident(0)
    what = f"{scn['cls']}({scn['params']}) n={scn['n']} p={scn['p']} rho={scn['rho']}"
    r.sig = cmp.digest([scn["cls"], str(scn["params"]), scn["n"], scn["p"], scn["seed"], fl])
    r.nontrivial = bool(fl) or bool(scn["new_faults"])
    (ddc if scn["cls"] == "DDC" else cellmcd)(
        r, scn, getattr(ro if scn["cls"] == "DDC" else rc, scn["cls"]), X, Y, lost, gross, what)
    return r.done()


def ddc(r, scn, C, X, Y, lost, gross, what):
    D = frame(scn, Y)
    m, s = call(lambda: C(**scn["params"]).fit(D))
    r.stat("steps", s)
    if isinstance(m, BaseException):
        r.fail("ddc:fit", f"{what}: fit on data with lost or corrupted cells failed: {m!r}")
        return
    m0, s = call(lambda: C(**scn["params"]).fit(frame(scn, X)))
    r.stat("steps", s)
    if isinstance(m0, BaseException):
        r.stat("fault_free_fit_fails")
        return

    def score(Z):
        return call(lambda: (m.predict(Z), m.predict(Z, rowwise=True), m.impute(Z),
                             m.impute(Z, impute_outliers=False)))[0]

    def containment(Z, lost, gross, where):
        V = Z.to_numpy()
        o = score(Z)
        if isinstance(o, BaseException):
            r.fail(f"ddc:{where}", f"{what}: scoring failed: {o!r}")
            return None
        (flag, res), rows, imp, imp2 = o
        if flag.shape != V.shape or imp.shape != V.shape or list(imp.index) != list(Z.index) or \
                list(imp.columns) != list(Z.columns):
            r.fail(f"ddc:{where}:shape", f"{what}: imputed frame has other labels or shape")
            return None
        A, B = imp.to_numpy(), imp2.to_numpy()
        keep = ~lost & ~flag
        if not np.array_equal(A[keep], V[keep]):
            r.fail(f"ddc:{where}:delivered", f"{what}: imputing changed delivered unflagged cells "
                                             f"{np.argwhere(keep & (A != V))[:3].tolist()}")
        if not np.array_equal(B[~lost], V[~lost]):
            r.fail(f"ddc:{where}:delivered", f"{what}: imputing lost cells only changed delivered cells")
        if not (np.isfinite(A).all() and np.isfinite(B).all()):
            r.fail(f"ddc:{where}:lost", f"{what}: {int((~np.isfinite(A)).sum())} of {int(lost.sum())} "
                                        f"lost cells have no finite imputed value")
        if not flag[gross].all():
            r.fail(f"ddc:{where}:gross", f"{what}: grossly corrupted cells "
                                         f"{np.argwhere(gross & ~flag)[:3].tolist()} not flagged, "
                                         f"residuals {res[gross & ~flag][:3]}")
        if (flag & lost).any():
            r.fail(f"ddc:{where}:lostflag", f"{what}: lost cells flagged as deviating")
        med, sc = np.median(X, axis=0), X.std(axis=0)
        # an imputed value is a prediction from cells within the cutoff
        far = np.abs(A - med) > 12 * sc
        if (far & (lost | flag)).any():
            r.fail(f"ddc:{where}:imputed", f"{what}: imputed values far outside the data: "
                                           f"{A[far & (lost | flag)][:3]}")
        r.log(cmp.digest([flag, A]))
        return o

    if not np.array_equal(m.cellwise_outliers_ & gross, gross):
        r.fail("ddc:fit:gross", f"{what}: the fit does not flag the corrupted cells "
                                f"{np.argwhere(gross & ~m.cellwise_outliers_)[:3].tolist()}")
    containment(D, lost, gross, "train")
    # new records: faults in some records leave the scores of the others alone
    N = table(scn, scn["new_n"], 31)
    fl = [f for f in scn["new_faults"] if f[0] < scn["new_n"] and f[1] < scn["p"]]
    M = N.copy()
    for i, j, k, mag in fl:
        M[i, j] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}.get(k) if k != "gross" else \
            np.median(X[:, j]) + mag * scn["scale"]
        r.fault({"nan": "lost cell", "inf": "infinite cell", "-inf": "infinite cell",
                 "gross": "corrupted cell"}[k])
    gn = np.zeros(N.shape, bool)
    for i, j, k, _ in fl:
        gn[i, j] = k == "gross"
    a = score(frame(scn, N))
    b = containment(frame(scn, M), ~np.isfinite(M), gn, "score")
    if isinstance(a, BaseException):
        r.fail("ddc:score", f"{what}: scoring fault-free records failed: {a!r}")
    elif b is not None:
        ok = np.array([not any(f[0] == i for f in fl) for i in range(scn["new_n"])])
        for name, u, v in (("flags", a[0][0], b[0][0]), ("residuals", a[0][1], b[0][1]),
                           ("row flags", a[1], b[1]), ("imputed", a[2].to_numpy(), b[2].to_numpy()),
                           ("imputed2", a[3].to_numpy(), b[3].to_numpy())):
            d = cmp.diff(cmp.enc(np.asarray(u)[ok]), cmp.enc(np.asarray(v)[ok]), 1e-12, 1e-12)
            if d:
                r.fail("ddc:contained", f"{what}: {name} of records without faults changed because of "
                                        f"faults in other records: {d}")
                break
        # within a record: the residual of a delivered cell does not depend on the size of a
        # corrupted cell that is beyond the cutoff anyway
        if fl:
            M2 = M.copy()
            for i, j, k, mag in fl:
                if k == "gross":
                    M2[i, j] = np.median(X[:, j]) + 3 * mag * scn["scale"]
            c = score(frame(scn, M2))
            if isinstance(c, BaseException):
                r.fail("ddc:score", f"{what}: {c!r}")
            else:
                other = ~gn
                d = cmp.diff(cmp.enc(b[0][1][other]), cmp.enc(c[0][1][other]), 1e-12, 1e-12)
                if d:
                    r.fail("ddc:contained-cell", f"{what}: tripling corrupted cells changed the residuals "
                                                 f"of other cells: {d}")
    # estimates stay close to those of the fault-free stream
    sc = np.asarray(m0.scale_, float)
    dl = np.max(np.abs(np.asarray(m.location_) - m0.location_) / sc)
    ds = np.max(np.abs(np.log(np.asarray(m.scale_) / sc)))
    drs = np.max(np.abs(np.log(np.asarray(m.residual_scales) / m0.residual_scales)))
    corr = np.max(np.abs(m.robust_correlation_ - m0.robust_correlation_))
    bad = lost | gross
    k = bad.mean(axis=0).max()
    r.track = {"loc": float(dl), "scale": float(ds), "corr": float(corr), "res": float(drs)}
    lim = {"loc": 0.2 + 3.5 * k, "scale": 0.25 + 5 * k, "corr": 0.6 + 4 * k, "res": 0.9 + 4 * k}
    for name, v in r.track.items():
        if not v <= lim[name]:
            r.fail(f"ddc:close:{name}", f"{what}: with {100 * k:.1f}% damaged cells the {name} estimate "
                                        f"moves by {v:.3f} (limit {lim[name]:.3f})")
    r.stat("ddc_checked")


def cellmcd(r, scn, C, X, Y, lost, gross, what):
    from scipy.stats import chi2

    D = frame(scn, Y) if scn["frame"] else Y.copy()
    n, p = Y.shape
    par = scn["params"]
    m, s = call(lambda: C(**par).fit(D))
    r.stat("steps", s)
    m0, s = call(lambda: C(**par).fit(X.copy()))
    r.stat("steps", s)
    if isinstance(m0, BaseException):
        r.stat("fault_free_fit_fails")
        return
    alpha = max(par.get("alpha", 0.75), (n // 2 + 1) / n)
    if isinstance(m, BaseException):
        from robpy.univariate import OneStepWrapping

        cut = math.sqrt(chi2.ppf(par.get("quantile", 0.99), 1))
        fr = []
        for j in range(p):
            v = Y[:, j]
            e = OneStepWrapping().fit(v[np.isfinite(v)])
            fr.append(np.mean(~(np.abs((v - e.location) / e.scale) <= cut)))
        if isinstance(m, ValueError) and "nan's or marginal" in str(m) and max(fr) > 1 - alpha:
            r.stat("documented_rejection")
            return
        if isinstance(m, ValueError) and "marginal  outliers" in str(m) and max(fr) > 1 - alpha:
            r.stat("documented_rejection")
            return
        r.fail("cellmcd:fit", f"{what}: fit failed although at most {100 * max(fr):.0f}% of a column is "
                              f"lost or outlying (alpha {alpha}): {m!r}")
        return
    W, Xi = np.asarray(m.W), np.asarray(m.X_imputed)
    r.log(cmp.digest([W, Xi, m.location_, m.covariance_]))
    if not np.isin(W, (0, 1)).all() or W.shape != Y.shape:
        r.fail("cellmcd:W", f"{what}: W is not a 0/1 matrix")
        return
    h = round(alpha * n)
    if (W.sum(axis=0) < h).any():
        r.fail("cellmcd:coverage", f"{what}: only {W.sum(axis=0).min():.0f} of {n} cells of a column kept, "
                                   f"at least {h} guaranteed")
    if (W[lost] == 1).any():
        r.fail("cellmcd:lostused", f"{what}: lost cells marked as clean")
    if (W[gross] == 1).any():
        r.fail("cellmcd:gross", f"{what}: corrupted cells {np.argwhere(gross & (W == 1))[:3].tolist()} "
                                f"not flagged")
    keep = W == 1
    if not np.array_equal(Xi[keep], Y[keep]):
        r.fail("cellmcd:delivered", f"{what}: unflagged delivered cells changed in X_imputed")
    for nm in ("X_imputed", "predictions", "conditional_stds", "location_", "covariance_"):
        if not np.isfinite(np.asarray(getattr(m, nm))).all():
            r.fail("cellmcd:finite", f"{what}: {nm} is not finite")
            return
    if not np.array_equal(np.isfinite(m.residuals), ~lost):
        r.fail("cellmcd:residuals", f"{what}: residuals finite for other cells than the delivered ones")
    # the imputed value and the scale of each cell follow from the model and the clean cells of the
    # same record
    mu, S = np.asarray(m.location_), np.asarray(m.covariance_)
    sd = np.sqrt(np.diag(S))
    K = S / np.outer(sd, sd)
    if np.linalg.cond(K) < 1e8:
        for i in range(n):
            for j in range(p):
                o = [k for k in range(p) if k != j and W[i, k] == 1]
                z = (Y[i, o] - mu[o]) / sd[o]
                if o:
                    b = np.linalg.solve(K[np.ix_(o, o)], K[o, j])
                    e, v = z @ b, 1 - K[j, o] @ b
                else:
                    e, v = 0.0, 1.0
                pe = mu[j] + e * sd[j]
                se = math.sqrt(max(v, 0)) * sd[j]
                if abs(m.predictions[i, j] - pe) > 1e-5 * sd[j] + 1e-9 * abs(pe):
                    r.fail("cellmcd:prediction", f"{what}: prediction of cell {(i, j)} is "
                                                 f"{m.predictions[i, j]}, expected {pe} from the "
                                                 f"{len(o)} clean cells of its record")
                    break
                if abs(m.conditional_stds[i, j] - se) > 1e-4 * sd[j]:
                    r.fail("cellmcd:std", f"{what}: conditional std of cell {(i, j)} is "
                                          f"{m.conditional_stds[i, j]}, expected {se}")
                    break
                if W[i, j] == 0 and Xi[i, j] != m.predictions[i, j]:
                    r.fail("cellmcd:imputed", f"{what}: flagged cell {(i, j)} not replaced by its "
                                              f"prediction")
                    break
            else:
                continue
            break
        q = (Y - m.predictions) / m.conditional_stds
        with np.errstate(all="ignore"):
            ratio = np.where(np.abs(q) > 1e-6, m.residuals / q, np.nan)
        for j in range(p):
            v = ratio[:, j][np.isfinite(ratio[:, j])]
            if v.size and np.ptp(v) > 1e-6 * abs(np.median(v)):
                r.fail("cellmcd:residuals", f"{what}: residuals are not proportional to the deviation "
                                            f"from the prediction")
                break
    # closeness
    sd0 = np.sqrt(np.diag(m0.covariance_))
    dl = float(np.max(np.abs(mu - m0.location_) / sd0))
    K0 = m0.covariance_ / np.outer(sd0, sd0)
    ev = np.linalg.eigvals(np.linalg.solve(K0 + 1e-9 * np.eye(p), S / np.outer(sd0, sd0))).real
    ds = float(np.max(np.abs(np.log(np.maximum(ev, 1e-12)))))
    k = float((lost | gross).mean(axis=0).max())
    r.track = {"loc": dl, "shape": ds}
    lim = {"loc": 0.35 + 4 * k, "shape": (1.5 if scn["n"] >= 20 * p else 3.0) + 10 * k}
    if scn["n"] >= 10 * p:
        for name, v in r.track.items():
            if not v <= lim[name]:
                r.fail(f"cellmcd:close:{name}", f"{what}: with {100 * k:.1f}% damaged cells the {name} "
                                                f"estimate moves by {v:.3f} (limit {lim[name]:.3f})")
    r.stat("cellmcd_checked")
