import numpy as np
from scipy.special import erf
from .gexceptions import GMixRangeError


class GPriorBA:
    def __init__(self, sigma=0.3, A=1.0, rng=None):
        self.sigma, self.rng = sigma, rng

    def get_lnprob_scalar2d(self, g1, g2):
        g2t = g1**2 + g2**2
        if g2t >= 1:
            raise GMixRangeError("g^2 too big: %s" % g2t)
        return 2*np.log(1 - g2t) - 0.5*g2t/self.sigma**2

    def sample1d(self, n):
        out = []
        while len(out) < n:
            g = self.rng.uniform(0, 1, size=n)
            pr = (1 - g**2)**2*g*np.exp(-0.5*g**2/self.sigma**2)
            out.extend(g[self.rng.uniform(0, self.sigma, size=n) < pr])
        return np.array(out[:n])

    def sample2d(self, nrand=None):
        n = 1 if nrand is None else nrand
        g = self.sample1d(n)
        t = self.rng.uniform(0, 2*np.pi, size=n)
        g1, g2 = g*np.cos(t), g*np.sin(t)
        return (g1[0], g2[0]) if nrand is None else (g1, g2)

    sample = sample2d


class CenPrior:
    def __init__(self, cen1=0.0, cen2=0.0, sigma1=1.0, sigma2=1.0, rng=None):
        self.c, self.s, self.rng = (cen1, cen2), (sigma1, sigma2), rng

    def diff(self, a, b):
        return (a - self.c[0])/self.s[0], (b - self.c[1])/self.s[1]

    def sample(self, n=None):
        k = 1 if n is None else n
        a = self.rng.normal(self.c[0], self.s[0], size=k)
        b = self.rng.normal(self.c[1], self.s[1], size=k)
        return (a[0], b[0]) if n is None else (a, b)

    sample2d = sample


class TwoSidedErf:
    def __init__(self, minval, width_at_min, maxval, width_at_max, rng=None):
        self.a, self.wa, self.b, self.wb = minval, width_at_min, maxval, width_at_max
        self.rng = rng

    def get_prob_scalar(self, x):
        return (0.5*erf((self.b - x)/self.wb) - 0.5*erf((self.a - x)/self.wa))

    def get_fdiff(self, x):
        p = self.get_prob_scalar(x)
        if p < 1e-300:
            p = 1e-300
        return np.sqrt(-2*np.log(min(p, 1.0)))

    def sample(self, n=None):
        return self.rng.uniform(self.a, self.b, size=n)
