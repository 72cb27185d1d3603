"""Small executable reference models, written from the documentation (no robpy code)."""
import itertools

import numpy as np
from scipy.stats import chi2, gamma, norm

_chi2_ppf, _gamma_cdf, _norm = chi2.ppf, gamma.cdf, norm
_cov, _det, _inv, _lstsq = np.cov, np.linalg.det, np.linalg.inv, np.linalg.lstsq


def cov(A):
    A = np.asarray(A, float)
    m = A.mean(0)
    B = A - m
    return m, B.T @ B / (len(A) - 1)


def dist2(X, loc, S):
    D = np.asarray(X, float) - loc
    return np.einsum("ij,ij->i", D, np.linalg.solve(S, D.T).T)


def mcd_h(alpha, n, p):
    low = (n + p + 1) // 2
    if alpha is None:
        return low
    if isinstance(alpha, int) and alpha != 1:
        return max(alpha, low)
    return max(int(alpha * n), low)


def c_step(X, loc, S, h):
    idx = np.argsort(dist2(X, loc, S), kind="stable")[:h]
    m, C = cov(X[idx])
    return idx, m, C


def mcd_from_all_starts(X, h):
    """Determinant reached by concentration from every (p+1)-subset; list sorted."""
    n, p = X.shape
    out, seen = [], {}
    for st in itertools.combinations(range(n), p + 1):
        m, C = cov(X[list(st)])
        if abs(np.linalg.det(C)) < 1e-10 * np.prod(np.var(X, axis=0)) or np.linalg.cond(C) > 1e10:
            continue
        path = []
        prev = None
        for _ in range(200):
            idx, m, C = c_step(X, m, C, h)
            key = tuple(sorted(idx))
            if key in seen:
                prev = seen[key]
                break
            path.append(key)
            d = np.linalg.det(C)
            if prev is not None and d >= prev * (1 - 1e-12):
                prev = min(d, prev)
                break
            prev = d
        for k in path:
            seen[k] = prev
        out.append(prev)
    return sorted(out)


def mcd_optimum(X, h):
    n = len(X)
    return min(np.linalg.det(cov(X[list(s)])[1]) for s in itertools.combinations(range(n), h))


def ls(X, y):
    A = np.column_stack([np.ones(len(X)), X])
    b = np.linalg.lstsq(A, y, rcond=None)[0]
    return b


def lts_loss(X, y, b, h):
    r = y - np.column_stack([np.ones(len(X)), X]) @ b
    return float(np.sort(r ** 2)[:h].sum() / h)


def lts_from_all_starts(X, y, h):
    n, p = X.shape
    A = np.column_stack([np.ones(n), X])
    out, seen = [], {}
    for st in itertools.combinations(range(n), p + 1):
        b = np.linalg.lstsq(A[list(st)], y[list(st)], rcond=None)[0]
        prev, path = None, []
        for _ in range(200):
            r2 = (y - A @ b) ** 2
            idx = np.argsort(r2, kind="stable")[:h]
            key = tuple(sorted(idx))
            if key in seen:
                prev = seen[key]
                break
            path.append(key)
            b = np.linalg.lstsq(A[idx], y[idx], rcond=None)[0]
            loss = lts_loss(X, y, b, h)
            if prev is not None and loss >= prev * (1 - 1e-12):
                prev = min(loss, prev)
                break
            prev = loss
        for k in path:
            seen[k] = prev
        out.append(prev)
    return sorted(out)


def lts_from_best_start(X, y, h):
    """Loss after C-steps from the start (p + 1 records) with the smallest initial loss."""
    n, p = X.shape
    A = np.column_stack([np.ones(n), X])
    c = []
    for st in itertools.combinations(range(n), p + 1):
        b = np.linalg.lstsq(A[list(st)], y[list(st)], rcond=None)[0]
        c.append((lts_loss(X, y, b, h), tuple(b)))
    c.sort()
    if len(c) > 1 and c[1][0] <= c[0][0] * (1 + 1e-7):
        return None
    prev, b = c[0][0], np.array(c[0][1])
    for _ in range(300):
        idx = np.argsort((y - A @ b) ** 2, kind="stable")[:h]
        b = np.linalg.lstsq(A[idx], y[idx], rcond=None)[0]
        loss = lts_loss(X, y, b, h)
        if loss >= prev * (1 - 1e-12):
            break
        prev = loss
    return min(prev, loss)


def lts_optimum(X, y, h):
    n, p = X.shape
    A = np.column_stack([np.ones(n), X])
    best = np.inf
    for s in itertools.combinations(range(n), h):
        s = list(s)
        b = np.linalg.lstsq(A[s], y[s], rcond=None)[0]
        best = min(best, float(np.mean((y[s] - A[s] @ b) ** 2)))
    return best


def sd_all_directions(X, n_points):
    """Outlyingness over every admissible direction (pairs, or hyperplanes through n_points = p)."""
    n, p = X.shape
    best = np.zeros(n)
    for c in itertools.combinations(range(n), n_points):
        P = X[list(c)]
        if n_points == 2:
            d = P[0] - P[1]
        else:
            d = np.linalg.svd(P[1:] - P[0])[2][-1]
        nd = np.linalg.norm(d)
        if nd == 0:
            continue
        z = X @ (d / nd)
        m = np.median(z)
        mad = np.median(np.abs(z - m))
        if mad <= 1e-12 * np.abs(z).max():
            return None
        best = np.maximum(best, np.abs(z - m) / mad)
    return best


def bisquare_rho(u, c):
    return np.where(np.abs(u) <= c, u ** 2 / 2 - u ** 4 / (2 * c ** 2) + u ** 6 / (6 * c ** 4),
                    c ** 2 / 6)


def bisquare_w(u, c):
    return np.where(np.abs(u) <= c, (1 - (u / c) ** 2) ** 2, 0.0)


def m_scale(r, c, b, s=None):
    """Exact M-scale by bisection."""
    r = np.abs(np.asarray(r, float))
    hi = r.max() * 10 + 1e-300
    lo = 0.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid == 0 or np.mean(bisquare_rho(r / mid, c)) > b:
            lo = mid
        else:
            hi = mid
        if hi - lo <= 1e-13 * hi:
            break
    return hi


def s_profile_minimum(x, y, c, b):
    """min over slopes of the M-scale of y - x*slope (no intercept, one column)."""
    sl = y / x
    lo, hi = sl.min() - 1, sl.max() + 1
    g = np.unique(np.concatenate([np.linspace(lo, hi, 1200), sl,
                                  np.quantile(sl, np.linspace(0.02, 0.98, 200))]))
    v = np.array([m_scale(y - x * t, c, b) for t in g])
    best = v.min()
    for i in np.argsort(v)[:6]:
        a, z = g[max(0, i - 1)], g[min(len(g) - 1, i + 1)]
        for _ in range(60):
            u, w = a + (z - a) * 0.382, a + (z - a) * 0.618
            if m_scale(y - x * u, c, b) < m_scale(y - x * w, c, b):
                z = w
            else:
                a = u
        best = min(best, m_scale(y - x * 0.5 * (a + z), c, b))
    return best


# ---------------------------------------------------------------- documented post-processing


def mcd_corrected(X, loc, S):
    p = X.shape[1]
    return S * np.median(dist2(X, loc, S)) / chi2.ppf(0.5, p)


def mcd_reweight_mask(X, loc, S):
    p = X.shape[1]
    d2 = dist2(X, loc, S)
    cut = chi2.ppf(0.975, p)
    gap = np.min(np.abs(d2 / cut - 1)) if len(d2) else 1
    return d2 < cut, gap


def mcd_reweight_factor(p):
    return 0.975 / gamma.cdf(chi2.ppf(0.975, p) / 2, p / 2 + 1)


_RAW = (np.array([[-0.458580153984614, 1.12236071104403, 3], [-0.267178168108996, 1.1022478781154, 5]]),
        np.array([[-0.746945886714663, 0.56264937192689, 3], [-0.535478048924724, 0.543323462033445, 5]]))
_REW = (np.array([[-0.474174840843602, 1.39681715704956, 3], [-0.276640353112907, 1.42543242287677, 5]]),
        np.array([[-0.773365715932083, 2.02013996406346, 3], [-0.337571678986723, 2.02037467454833, 5]]))
_RAW1 = ((0.630869217886906, 0.650789250442946), (0.565065391014791, 1.03044199012509))
_REW1 = ((1.58609654199605, 1.46340162526468), (0.391653958727332, 1.03167487483316))


def lts_small_sample(p, n, alpha, reweighted=False):
    """Pison, Van Aelst & Willems (2002), as in robustbase::ltsReg with p predictors."""
    if p == 1:
        (a5, b5), (a8, b8) = _REW1 if reweighted else _RAW1
        f5 = 1 - np.exp(a5) / n ** b5
        f8 = 1 - np.exp(a8) / n ** b8
    else:
        T8, T5 = _REW if reweighted else _RAW
        fs = []
        for T in (T5, T8):
            yv = np.log(-T[:, 0] / p ** T[:, 1])
            A = np.column_stack([np.ones(2), -np.log(T[:, 2] * p ** 2)])
            co = np.linalg.solve(A, yv)
            fs.append(1 - np.exp(co[0]) / n ** co[1])
        f5, f8 = fs
    if alpha <= 0.875:
        f = f5 + (f8 - f5) / 0.375 * (alpha - 0.5)
    else:
        f = f8 + (1 - f8) / 0.125 * (alpha - 0.875)
    return 1 / f


def lts_consistency(h, n):
    if h >= n:
        return 1.0
    q = norm.ppf((h + n) / (2 * n))
    return 1 / np.sqrt(1 - 2 * n / h * q * norm.pdf(q))


def lts_h(alpha, n, p):
    return max(int(n * alpha), (n + p + 1) // 2)
