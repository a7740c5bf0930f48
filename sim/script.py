"""Scripted random generator: the seam behind which all randomness of the system sits."""
import numpy as np


class Unscriptable(Exception):
    """The code drew from a distribution the script does not model."""


class ScriptedGen(np.random.Generator):
    """Standard normals come from ``z`` (flat array), in order; everything else is refused or derived from them."""

    def __init__(self, z=None, u=None, idx=None):
        super().__init__(np.random.PCG64(1))
        self.z = z
        self.u = u
        self.idx = idx
        self.nz = self.nu = self.nidx = 0
        self.choice_calls = []

    @staticmethod
    def _n(size):
        return int(np.prod(size)) if size is not None else 1

    @staticmethod
    def _shape(x, size):
        if size is None:
            return float(x[0])
        return np.asarray(x, float).reshape(size)

    def standard_normal(self, size=None, dtype=float, out=None):
        n = self._n(size)
        v = np.zeros(n) if self.z is None else np.asarray(self.z[self.nz:self.nz + n], float)
        if len(v) < n:
            v = np.concatenate([v, np.zeros(n - len(v))])
        self.nz += n
        return self._shape(v, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size_ = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            if size_ == ():
                return float(loc + scale * self.standard_normal())
            size = size_
        return loc + scale * self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, method="svd"):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        if mean.ndim != 1 or cov.shape != (len(mean),) * 2:
            raise ValueError("mean and cov must have the same length")
        if size is None:
            size = ()
        elif np.ndim(size) == 0:
            size = (int(size),)
        w, V = np.linalg.eigh(0.5 * (cov + cov.T))
        if np.any(np.abs(cov - cov.T) > 1e-8 * (1 + np.abs(cov))) or w[0] < -1e-8 * max(1.0, w[-1]):
            raise Unscriptable("covariance is not symmetric positive semi-definite")
        L = (V * np.sqrt(np.clip(w, 0, None))) @ V.T  # the symmetric root is unique
        z = self.standard_normal(tuple(size) + (len(mean),))
        return mean + z @ L.T

    def random(self, size=None, dtype=float, out=None):
        n = self._n(size)
        v = np.full(n, 0.5) if self.u is None else np.asarray(self.u[self.nu:self.nu + n], float)
        if len(v) < n:
            v = np.concatenate([v, np.full(n - len(v), 0.5)])
        self.nu += n
        return self._shape(v, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            sh = np.broadcast(np.asarray(low), np.asarray(high)).shape
            if sh == ():
                return float(low + (high - low) * self.random())
            size = sh
        return low + (high - low) * self.random(size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        k = int(a) if np.ndim(a) == 0 else len(a)
        n = self._n(size)
        src = self.idx if self.idx is not None else []
        v = [int(src[self.nidx + i]) % k if self.nidx + i < len(src) else 0 for i in range(n)]
        self.nidx += n
        self.choice_calls.append(dict(k=k, n=n, p=None if p is None else np.array(p, float), replace=replace, idx=list(v)))
        idx = np.asarray(v).reshape(size if size is not None else ())
        pool = np.arange(k) if np.ndim(a) == 0 else np.asarray(a)
        return pool[idx]

    def _refuse(self, *a, **k):
        raise Unscriptable("distribution not modelled by the script")

    integers = exponential = gamma = beta = permutation = shuffle = poisson = standard_exponential = lognormal = _refuse


def affine(draw, limit=400):
    """draw(gen) -> flat array.  Returns (a, B) with draw = a + B z, probing with unit vectors."""
    g = ScriptedGen()
    a = np.asarray(draw(g), float).ravel()
    nz = g.nz
    if nz > limit:
        raise Unscriptable("too many base variables")
    B = np.zeros((a.size, nz))
    for i in range(nz):
        z = np.zeros(nz)
        z[i] = 1.0
        g = ScriptedGen(z=z)
        B[:, i] = np.asarray(draw(g), float).ravel() - a
        if g.nz != nz:
            raise Unscriptable("number of base variables depends on their values")
    return a, B
