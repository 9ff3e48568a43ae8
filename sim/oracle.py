"""An independent Laplace posterior (own kernels, own likelihoods, own mode
search in whitened space), used to judge fits and predictions."""
import numpy as np
import scipy.special as sp

SQRT2PI = np.sqrt(2 * np.pi)


# --------------------------------------------------------------------- kernels
def kern(k, X, Y, noise=False):
    """k: the JSON kernel specification of lopsys. noise: X and Y are the same points."""
    X = np.asarray(X, dtype=float).reshape(len(X), -1)
    Y = np.asarray(Y, dtype=float).reshape(len(Y), -1)
    n = k['k']
    if n == 'rbf':
        d2 = ((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1)
        K = k['s'] ** 2 * np.exp(-d2 / (2 * k['l'] ** 2))
        return K + (k.get('n', 0.01) * np.eye(len(X)) if noise else 0)
    if n == 'rbf0':                              # an RBF process known to be zero at the origin
        r = dict(k, k='rbf')
        o = np.zeros((1, X.shape[1]))
        return kern(r, X, Y, noise) - kern(r, X, o) @ kern(r, o, Y) / k['s'] ** 2
    if n == 'per':
        d1 = np.abs(X[:, None, :] - Y[None, :, :]).sum(-1)
        return k['s'] ** 2 * np.exp(-2 * np.sin(np.pi * d1 / k['p']) ** 2 / k['l'] ** 2)
    if n == 'lin':
        return k['s'] ** 2 * ((X[:, None, :] - k['off']) * (Y[None, :, :] - k['off'])).sum(-1) + k['sb'] ** 2
    a, b = kern(k['a'], X, Y, noise), kern(k['b'], X, Y, noise)
    return a + b if n == 'sum' else a * b


# ----------------------------------------------------------------- likelihoods
def _logcdf_ratio(z):
    """log Phi(z) and phi(z)/Phi(z)"""
    l = sp.log_ndtr(z)
    return l, np.exp(-0.5 * z * z - l) / SQRT2PI


class Lik:
    """prefs [(winner, loser)], ratings [(i, value)], labels [(i, label)]"""

    def __init__(self, n, prefs=(), ratings=(), labels=(), sigma=0.5, abs_sigma=1.0, v=80.0, ord_sigma=1.0, breaks=None):
        self.n = n
        self.w = np.array([p[0] for p in prefs], dtype=int)
        self.l = np.array([p[1] for p in prefs], dtype=int)
        self.ri = np.array([r[0] for r in ratings], dtype=int)
        self.rv = np.array([r[1] for r in ratings], dtype=float)
        self.oi = np.array([r[0] for r in labels], dtype=int)
        self.ov = np.array([r[1] for r in labels], dtype=int)
        self.sigma, self.abs_sigma, self.v, self.ord_sigma = sigma, abs_sigma, v, ord_sigma
        self.breaks = np.concatenate([[-np.inf], np.linspace(0, 1, 4), [np.inf]]) if breaks is None else breaks

    def logp(self, f):
        return self.all(f)[0]

    def all(self, f):
        """log likelihood, gradient, W = -hessian"""
        lp, g, W = 0.0, np.zeros(self.n), np.zeros((self.n, self.n))
        if len(self.w):
            s = 1 / (np.sqrt(2) * self.sigma)
            z = s * (f[self.w] - f[self.l])
            l, r = _logcdf_ratio(z)
            lp += l.sum()
            np.add.at(g, self.w, s * r)
            np.add.at(g, self.l, -s * r)
            h = s * s * r * (z + r)
            np.add.at(W, (self.w, self.w), h)
            np.add.at(W, (self.l, self.l), h)
            np.add.at(W, (self.w, self.l), -h)
            np.add.at(W, (self.l, self.w), -h)
        if len(self.oi):
            s = 1 / self.ord_sigma
            ff = f[self.oi]
            z1, z0 = s * (self.breaks[self.ov] - ff), s * (self.breaks[self.ov - 1] - ff)
            flip = z0 > 0
            a, b = np.where(flip, -z0, z1), np.where(flip, -z1, z0)
            la, lb = sp.log_ndtr(a), sp.log_ndtr(b)
            l = la + np.log1p(-np.exp(lb - la))
            r1, r0 = np.exp(-0.5 * z1 * z1 - l) / SQRT2PI, np.exp(-0.5 * z0 * z0 - l) / SQRT2PI
            lp += l.sum()
            d = -s * (r1 - r0)
            np.add.at(g, self.oi, d)
            zr1 = np.where(np.isinf(z1), 0, np.where(np.isinf(z1), 0, z1) * r1)
            zr0 = np.where(np.isinf(z0), 0, np.where(np.isinf(z0), 0, z0) * r0)
            np.add.at(W, (self.oi, self.oi), d * d + s * s * (zr1 - zr0))
        if len(self.ri):
            s = 1 / (np.sqrt(2) * self.abs_sigma)
            ff = f[self.ri]
            z = s * ff
            m = np.clip(sp.ndtr(z), 1e-10, 1 - 1e-10)
            a, b = self.v * m, self.v * (1 - m)
            ly, l1y = np.log(self.rv), np.log1p(-self.rv)
            lp += (sp.gammaln(self.v) - sp.gammaln(a) - sp.gammaln(b) + (a - 1) * ly + (b - 1) * l1y).sum()
            phi = np.exp(-0.5 * z * z) / SQRT2PI
            t = ly - l1y - sp.digamma(a) + sp.digamma(b)
            m1 = s * phi
            m2 = -s * s * z * phi
            d = self.v * t * m1
            np.add.at(g, self.ri, d)
            h = self.v * t * m2 - self.v ** 2 * m1 * m1 * (sp.polygamma(1, a) + sp.polygamma(1, b))
            np.add.at(W, (self.ri, self.ri), -h)
        return lp, g, W


# --------------------------------------------------------------------- posterior
def mode(K, lik, f0=None, iters=200):
    """Mode of the posterior N(0,K) x lik by damped Newton in f = A z. -> f, whether it converged"""
    w, U = np.linalg.eigh(K)
    keep = w > 1e-12 * w.max()
    A = U[:, keep] * np.sqrt(w[keep])
    z = np.zeros(A.shape[1]) if f0 is None else np.linalg.lstsq(A, f0, rcond=None)[0]

    def obj(z):
        return lik.logp(A @ z) - 0.5 * z @ z
    cur = obj(z)
    for _ in range(iters):
        lp, g, W = lik.all(A @ z)
        gz = A.T @ g - z
        H = A.T @ W @ A + np.eye(len(z))
        ev, V = np.linalg.eigh(H)
        ev = np.maximum(np.abs(ev), 1e-3)
        step = V @ ((V.T @ gz) / ev)
        t = 1.0
        while t > 1e-10:
            new = obj(z + t * step)
            if np.isfinite(new) and new >= cur + 1e-4 * t * (gz @ step) - 1e-13 * abs(cur):
                break
            t *= 0.5
        else:
            break
        z = z + t * step
        cur = new
        if np.abs(t * step).max() < 1e-11:
            break
    lp, g, W = lik.all(A @ z)
    res = np.abs(A.T @ g - z).max() if len(z) else 0.0
    return A @ z, res < 1e-6


def predict(K, Kq, Kqq, lik, f):
    """Laplace predictive at query points given the mode f: mean, covariance"""
    _, g, W = lik.all(f)
    mean = Kq @ g
    cov = Kqq - Kq @ np.linalg.solve(np.eye(len(K)) + W @ K, W @ Kq.T)
    return mean, cov
