"""Positive and negative examples for the C14 rules; analysed as source, never imported."""
import numpy as np


class BadLeak:
    def __init__(self, X):
        self.X, self.mu = X, None

    def loglike(self, params):
        self.mu = self.X.dot(params)
        return np.sum(self.mu**2)

    def gradient(self, params):
        return self.X.T.dot(self.mu)


class BadMemoAlias:
    def __init__(self, X):
        self.X, self.key, self.mu = X, None, None

    def loglike(self, params):
        if self.key is None or not np.array_equal(params, self.key):
            self.key = params
            self.mu = self.X.dot(params)
        return np.sum(self.mu**2)


class BadMemoClose:
    def __init__(self, X):
        self.X, self.key, self.mu = X, None, None

    def loglike(self, params):
        if self.key is None or not np.allclose(params, self.key):
            self.key = params.copy()
            self.mu = self.X.dot(params)
        return np.sum(self.mu**2)


class GoodMemo:
    def __init__(self, X):
        self.X, self.key, self.mu = X, None, None

    def loglike(self, params):
        if self.key is None or not np.array_equal(params, self.key):
            self.key = params.copy()
            self.mu = self.X.dot(params)
        return np.sum(self.mu**2)


class GoodLazy:
    def __init__(self, X):
        self.X, self.G = X, None

    def loglike(self, params):
        if self.G is None:
            self.G = self.X.T.dot(self.X)
        return params.dot(self.G).dot(params)


class GoodScratch:
    def __init__(self, X):
        self.X, self.mu = X, np.zeros(len(X))

    def loglike(self, params):
        self.mu[:] = self.X.dot(params)
        return np.sum(self.mu**2)


class BadResults:
    def __init__(self, X):
        self.X = X

    def loglike(self, params):
        self.params = params
        return np.sum(self.X.dot(params)**2)

    def fit(self):
        self.params = np.zeros(self.X.shape[1])
        return self


class BadAlias:
    def __init__(self, X):
        self.X, self.g = X, np.zeros(X.shape[1])

    def gradient(self, params):
        self.g[:] = self.X.T.dot(self.X.dot(params))
        return self.g


class GoodAlias:
    def __init__(self, X):
        self.X, self.g = X, np.zeros(X.shape[1])

    def gradient(self, params):
        self.g[:] = self.X.T.dot(self.X.dot(params))
        return self.g.copy()


class BadRestore:
    def __init__(self, X):
        self.X, self.E = X, np.zeros(X.shape[1])

    def gradient(self, params):
        g = np.zeros(len(params))
        for i in range(len(params)):
            self.E[i] = 1.0
            g[i] = self.X.dot(self.E).sum()
        return g


class GoodRestore:
    def __init__(self, X):
        self.X = X

    def gradient(self, params):
        g = np.zeros(len(params))
        h = np.zeros(len(params))
        for i in range(len(params)):
            h[i] = 1e-6
            g[i] = self.X.dot(params + h).sum()
            h[i] = 0
        return g
