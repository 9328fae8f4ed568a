"""KernelDensity with a gaussian kernel, summed exactly."""
import numpy as np


class KernelDensity:
    def __init__(self, *, bandwidth=1.0, algorithm="auto", kernel="gaussian", **kw):
        if kernel != "gaussian" or kw:
            raise NotImplementedError
        self.bandwidth = bandwidth

    def fit(self, X, y=None, sample_weight=None):
        X = np.asarray(X, np.float64)
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        if not np.isfinite(X).all():
            raise ValueError("Input X contains NaN or infinity.")
        if X.shape[0] == 0:
            raise ValueError("Found array with 0 sample(s)")
        self._x = X
        return self

    def score_samples(self, X):
        X = np.asarray(X, np.float64)
        if not np.isfinite(X).all():
            raise ValueError("Input X contains NaN or infinity.")
        h, n, d = self.bandwidth, self._x.shape[0], self._x.shape[1]
        q = -0.5 * (((X[:, None, :] - self._x[None]) / h) ** 2).sum(-1)
        m = q.max(1, keepdims=True)
        return np.log(np.exp(q - m).sum(1)) + m[:, 0] - np.log(n) - d * (np.log(h) + 0.5 * np.log(2 * np.pi))
