import numpy as np
from .gexceptions import GMixRangeError


def e1e2_to_g1g2(e1, e2):
    e = np.sqrt(e1*e1 + e2*e2)
    if np.isscalar(e) or np.ndim(e) == 0:
        if e >= 1:
            raise GMixRangeError("e out of bounds: %s" % e)
        if e == 0:
            return 0.0, 0.0
        g = np.tanh(0.5*np.arctanh(e))
        if g >= 1:
            g = 0.99999999
        fac = g/e
        return fac*e1, fac*e2
    if np.any(e >= 1):
        raise GMixRangeError("some e were out of bounds")
    g = np.tanh(0.5*np.arctanh(e))
    fac = np.divide(g, e, out=np.zeros_like(e), where=e > 0)
    return fac*e1, fac*e2


def g1g2_to_e1e2(g1, g2):
    g = np.sqrt(g1*g1 + g2*g2)
    if np.any(g >= 1):
        raise GMixRangeError("g out of bounds: %s" % g)
    if np.ndim(g) == 0:
        if g == 0:
            return 0.0, 0.0
        e = np.tanh(2*np.arctanh(g))
        if e >= 1:
            e = 0.99999999
        fac = e/g
        return fac*g1, fac*g2
    e = np.tanh(2*np.arctanh(g))
    fac = np.divide(e, g, out=np.zeros_like(g), where=g > 0)
    return fac*g1, fac*g2


class Shape:
    def __init__(self, g1, g2):
        self.g1, self.g2 = g1, g2
        if np.sqrt(g1**2 + g2**2) >= 1:
            raise GMixRangeError("g out of range")
