"""boxes, images, sources and blends; arrays are (band, y, x)"""
import numpy as np
from scipy import signal


class Box:
    def __init__(self, shape, origin=(0, 0)):
        self.shape, self.origin = tuple(shape), tuple(origin)

    def grow(self, r):
        ry, rx = (r, r) if np.isscalar(r) else r
        return Box((self.shape[0] + 2*ry, self.shape[1] + 2*rx),
                   (self.origin[0] - ry, self.origin[1] - rx))

    @property
    def stop(self):
        return tuple(o + s for o, s in zip(self.origin, self.shape))

    def __and__(self, o):
        lo = [max(a, b) for a, b in zip(self.origin, o.origin)]
        hi = [min(a, b) for a, b in zip(self.stop, o.stop)]
        return Box([max(h - q, 0) for q, h in zip(lo, hi)], lo)


class Image:
    def __init__(self, data, bands, yx0):
        self.data, self.bands, self.yx0 = data, tuple(bands), tuple(yx0)

    n_bands = property(lambda s: s.data.shape[0])
    dtype = property(lambda s: s.data.dtype)

    @property
    def bbox(self):
        return Box(self.data.shape[1:], self.yx0)

    def project(self, bbox=None):
        out = np.zeros((self.n_bands,) + tuple(bbox.shape), dtype=self.dtype)
        o = self.bbox & bbox
        (y0, x0), (y1, x1) = o.origin, o.stop
        if min(o.shape) > 0:
            out[:, y0-bbox.origin[0]:y1-bbox.origin[0],
                x0-bbox.origin[1]:x1-bbox.origin[1]] = \
                self.data[:, y0-self.yx0[0]:y1-self.yx0[0],
                          x0-self.yx0[1]:x1-self.yx0[1]]
        return Image(out, self.bands, bbox.origin)


class Observation:
    def __init__(self, psfs, bands, bbox):
        self.psfs, self.bands, self.bbox = psfs, tuple(bands), bbox

    def convolve(self, image, mode=None, grad=False):
        out = np.array([signal.convolve(d, p, mode="same", method="direct")
                        if min(d.shape) >= 1 else d
                        for d, p in zip(image.data, self.psfs)])
        # "same" is with respect to the larger array
        if out.shape != image.data.shape:
            out = np.array([_same(d, p) for d, p in zip(image.data, self.psfs)])
        return Image(out.astype(image.dtype), image.bands, image.yx0)


def _same(d, p):
    f = signal.convolve(d, p, mode="full", method="direct")
    y, x = p.shape[0]//2, p.shape[1]//2
    return f[y:y + d.shape[0], x:x + d.shape[1]]


class Source:
    def __init__(self, model, center, metadata):
        self._model, self.center, self.metadata = model, center, metadata

    bbox = property(lambda s: s._model.bbox)

    def get_model(self, use_flux=False):
        return self._model


class Blend:
    def __init__(self, sources, observation):
        self.sources, self.observation = sources, observation
