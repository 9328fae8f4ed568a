class Pipeline:
    def __init__(self, steps):
        self.steps = steps

    def fit(self, X, y=None):
        for _, s in self.steps:
            X = s.fit(X).transform(X)
        return self

    def transform(self, X):
        for _, s in self.steps:
            X = s.transform(X)
        return X

    def inverse_transform(self, X):
        for _, s in reversed(self.steps):
            X = s.inverse_transform(X)
        return X
