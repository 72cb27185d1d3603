"""User-supplied callbacks (estimator functions, rho functions, scale estimators) that may fail."""
import numpy as np
from scipy.stats import median_abs_deviation

from robpy.univariate import UnivariateMCD
from robpy.utils.rho import TukeyBisquare

_median, _mad = np.median, median_abs_deviation


class Fuse:
    at = None
    n = 0
    make = None
    fired = 0


fuse = Fuse()


def arm(at, make):
    fuse.at, fuse.n, fuse.make, fuse.fired = at, 0, make, 0


def tick():
    fuse.n += 1
    if fuse.at is not None and fuse.n == fuse.at:
        fuse.fired += 1
        raise fuse.make()


def location(x, axis=0):
    tick()
    return _median(x, axis=axis)


def scale(x, axis=0):
    tick()
    return _mad(x, axis=axis) * 1.4826


def mahalanobis(X):
    from robpy.utils.distance import mahalanobis_distance

    return mahalanobis_distance(X, X.mean(axis=0), np.cov(X, rowvar=False))


def weighted_median(x):
    from robpy.utils.median import weighted_median as f

    return f(x, np.arange(len(x)) % 3 + 1)


def truncated(X, min_eigenvalue):
    from robpy.covariance.utils.alter_covariance import covariance_to_correlation, truncated_covariance

    C = truncated_covariance(np.cov(X, rowvar=False), min_eigenvalue)
    return C, covariance_to_correlation(C)


class CbRho(TukeyBisquare):
    def rho(self, X):
        tick()
        return super().rho(X)

    def psi(self, X):
        tick()
        return super().psi(X)


class CbScale(UnivariateMCD):
    def fit(self, X, ignore_nan=False):
        tick()
        return super().fit(X, ignore_nan)
