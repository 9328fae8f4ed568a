import numpy as np


class PCA:
    def __init__(self, n_components=None):
        self.n_components = n_components

    def fit(self, X, y=None):
        X = np.asarray(X)
        if not 0 <= self.n_components <= min(X.shape):
            raise ValueError("n_components=%r must be between 0 and min(n_samples, n_features)=%r" % (self.n_components, min(X.shape)))
        self.mean_ = X.mean(0)
        u, s, vt = np.linalg.svd(X - self.mean_, full_matrices=False)
        sign = np.sign(u[np.abs(u).argmax(0), range(u.shape[1])])
        vt *= sign[:, None]
        self.components_ = vt[:self.n_components]
        self.explained_variance_ = (s ** 2 / (X.shape[0] - 1))[:self.n_components]
        return self

    def transform(self, X):
        return (X - self.mean_) @ self.components_.T

    def inverse_transform(self, X):
        return X @ self.components_ + self.mean_
