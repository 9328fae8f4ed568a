import numpy as np


class StandardScaler:
    def fit(self, X, y=None):
        X = np.asarray(X)
        self.mean_, self.var_ = X.mean(0), X.var(0)
        self.scale_ = np.sqrt(self.var_)
        self.scale_[self.scale_ < 10 * np.finfo(X.dtype).eps] = 1.0
        return self

    def transform(self, X):
        return (X - self.mean_) / self.scale_

    def inverse_transform(self, X):
        return X * self.scale_ + self.mean_
