import copy
import numpy as np
from .gexceptions import GMixFatalError
from .jacobian import Jacobian, UnitJacobian

_OPT = {"bmask": "i4", "ormask": "i4", "noise": "f8", "mfrac": "f8"}


class _Meta:
    @property
    def meta(self):
        return self._meta

    @meta.setter
    def meta(self, meta):
        self.set_meta(meta)

    def set_meta(self, meta):
        if meta is None:
            meta = {}
        if not isinstance(meta, dict):
            raise TypeError("meta data must be in dictionary form")
        self._meta = meta

    def update_meta_data(self, meta):
        if not isinstance(meta, dict):
            raise TypeError("meta data must be in dictionary form")
        self._meta.update(meta)


class Observation(_Meta):
    def __init__(self, image, weight=None, bmask=None, ormask=None, noise=None,
                 jacobian=None, gmix=None, psf=None, meta=None, mfrac=None,
                 store_pixels=True, ignore_zero_weight=True):
        self._writeable = False
        self._ignore_zero_weight = ignore_zero_weight
        self._store_pixels = store_pixels
        self.set_meta(copy.copy(meta) if meta is not None else None)
        self._set2("image", image, "f8")
        self.set_weight(weight, update_pixels=False)
        self.set_bmask(bmask)
        self.set_ormask(ormask)
        self.set_noise(noise)
        self.set_mfrac(mfrac)
        self.set_jacobian(jacobian, update_pixels=False)
        self.set_gmix(gmix)
        self.set_psf(psf)
        self.update_pixels()

    # arrays --------------------------------------------------------------
    def _set2(self, name, arr, dt):
        arr = np.ascontiguousarray(arr, dtype=dt)
        if arr.ndim != 2:
            raise ValueError("%s must be 2d, got %s" % (name, arr.shape))
        if name != "image" and arr.shape != self._image.shape:
            raise ValueError("image and %s must be same shape, got %s %s" % (
                name, self._image.shape, arr.shape))
        if name == "image" and hasattr(self, "_image") \
                and arr.shape != self._image.shape:
            raise ValueError("old and new image must have same shape, got "
                             "%s and %s" % (self._image.shape, arr.shape))
        setattr(self, "_" + name, arr)

    def _view(self, name):
        arr = getattr(self, "_" + name)   # AttributeError when unset
        v = arr.view()
        v.flags.writeable = self._writeable and arr.flags.writeable
        return v

    image = property(lambda s: s._view("image"), lambda s, v: s.set_image(v))
    weight = property(lambda s: s._view("weight"), lambda s, v: s.set_weight(v))
    bmask = property(lambda s: s._view("bmask"), lambda s, v: s.set_bmask(v))
    ormask = property(lambda s: s._view("ormask"), lambda s, v: s.set_ormask(v))
    noise = property(lambda s: s._view("noise"), lambda s, v: s.set_noise(v))
    mfrac = property(lambda s: s._view("mfrac"), lambda s, v: s.set_mfrac(v))

    def set_image(self, image, update_pixels=True):
        self._set2("image", image, "f8")
        if update_pixels:
            self.update_pixels()

    def set_weight(self, weight, update_pixels=True):
        if weight is None:
            weight = np.ones(self._image.shape)
        self._set2("weight", weight, "f8")
        if update_pixels:
            self.update_pixels()

    def _set_opt(self, name, val):
        if val is None:
            if hasattr(self, "_" + name):
                delattr(self, "_" + name)
        else:
            self._set2(name, val, _OPT[name])

    def set_bmask(self, v): self._set_opt("bmask", v)
    def set_ormask(self, v): self._set_opt("ormask", v)
    def set_noise(self, v): self._set_opt("noise", v)
    def set_mfrac(self, v): self._set_opt("mfrac", v)
    def has_bmask(self): return hasattr(self, "_bmask")
    def has_ormask(self): return hasattr(self, "_ormask")
    def has_noise(self): return hasattr(self, "_noise")
    def has_mfrac(self): return hasattr(self, "_mfrac")

    # jacobian, psf, gmix ---------------------------------------------------
    @property
    def jacobian(self):
        return self._jacobian.copy()

    @jacobian.setter
    def jacobian(self, j):
        self.set_jacobian(j)

    def get_jacobian(self):
        return self.jacobian

    def set_jacobian(self, j, update_pixels=True):
        if j is None:
            cen = (np.array(self._image.shape) - 1.0)/2.0
            j = UnitJacobian(row=cen[0], col=cen[1])
        if not isinstance(j, Jacobian):
            raise TypeError("jacobian must be of type Jacobian, got %s" % type(j))
        self._jacobian = j.copy()
        if update_pixels:
            self.update_pixels()

    @property
    def psf(self):
        return self._psf

    @psf.setter
    def psf(self, psf):
        self.set_psf(psf)

    def set_psf(self, psf):
        if hasattr(self, "_psf"):
            del self._psf
        if psf is not None:
            if not isinstance(psf, Observation):
                raise TypeError("psf must be of Observation, got %s" % type(psf))
            self._psf = psf

    def has_psf(self): return hasattr(self, "_psf")
    def get_psf(self): return self._psf

    @property
    def gmix(self):
        return self._gmix.copy()

    @gmix.setter
    def gmix(self, gm):
        self.set_gmix(gm)

    def set_gmix(self, gm):
        if hasattr(self, "_gmix"):
            del self._gmix
        if gm is not None:
            self._gmix = gm.copy()

    def has_gmix(self): return hasattr(self, "_gmix")
    def get_gmix(self): return self.gmix
    def has_psf_gmix(self): return self.has_psf() and self.psf.has_gmix()

    # pixels ----------------------------------------------------------------
    @property
    def ignore_zero_weight(self):
        return self._ignore_zero_weight

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, v):
        self._ignore_zero_weight = v
        self.update_pixels()

    @property
    def store_pixels(self):
        return self._store_pixels

    @property
    def pixels(self):
        return self._pixels if hasattr(self, "_pixels") else None

    def update_pixels(self):
        """pixels entering fits and sums: (v, u, val, ierr, row, col)"""
        if not self._store_pixels:
            return
        w = self._weight
        if self._ignore_zero_weight:
            keep = w > 0
            if not keep.any():
                raise GMixFatalError("no weights > 0")
        else:
            keep = np.ones(w.shape, dtype=bool)
        rows, cols = np.nonzero(keep)
        v, u = self._jacobian.get_vu(rows, cols)
        p = np.zeros(rows.size, dtype=[(n, "f8") for n in (
            "u", "v", "area", "val", "ierr", "fdiff")])
        p["u"], p["v"] = u, v
        p["area"] = self._jacobian.area
        p["val"] = self._image[rows, cols]
        p["ierr"] = np.sqrt(np.clip(w[rows, cols], 0, None))
        self._pixels = p

    # writing ---------------------------------------------------------------
    def writeable(self):
        self._writeable = True
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._writeable = False
        self.update_pixels()

    def copy(self):
        kw = {}
        for name in _OPT:
            if hasattr(self, "_" + name):
                kw[name] = getattr(self, "_" + name).copy()
        return Observation(
            self._image.copy(), weight=self._weight.copy(),
            jacobian=self.jacobian,
            gmix=self._gmix if self.has_gmix() else None,
            psf=self._psf.copy() if self.has_psf() else None,
            meta=copy.deepcopy(self._meta),
            store_pixels=self._store_pixels,
            ignore_zero_weight=self._ignore_zero_weight, **kw)

    def get_s2n_sums(self):
        w = self._weight > 0
        return (self._image[w]*self._weight[w]).sum(), \
            self._weight[w].sum(), np.sqrt(w.sum())

    def get_s2n(self):
        p = self._weight > 0
        Isum = self._image[p].sum()
        Vsum = (1.0/self._weight[p]).sum()
        return Isum/np.sqrt(Vsum) if Vsum > 0 else -9999.0


class ObsList(list, _Meta):
    def __init__(self, meta=None):
        super().__init__()
        self.set_meta(meta)

    def append(self, obs):
        if not isinstance(obs, Observation):
            raise TypeError("obs should be of type Observation, got %s" % type(obs))
        super().append(obs)

    def __setitem__(self, i, obs):
        if not isinstance(obs, Observation):
            raise TypeError("obs should be of type Observation, got %s" % type(obs))
        super().__setitem__(i, obs)

    def copy(self):
        new = ObsList(meta=copy.deepcopy(self._meta))
        for o in self:
            new.append(o.copy())
        return new


class MultiBandObsList(list, _Meta):
    def __init__(self, meta=None):
        super().__init__()
        self.set_meta(meta)

    def append(self, ol):
        if not isinstance(ol, ObsList):
            raise TypeError("obs_list should be of type ObsList, got %s" % type(ol))
        super().append(ol)

    def __setitem__(self, i, ol):
        if not isinstance(ol, ObsList):
            raise TypeError("obs_list should be of type ObsList, got %s" % type(ol))
        super().__setitem__(i, ol)

    def copy(self):
        new = MultiBandObsList(meta=copy.deepcopy(self._meta))
        for o in self:
            new.append(o.copy())
        return new


def get_mb_obs(obs_in):
    if isinstance(obs_in, Observation):
        ol = ObsList()
        ol.append(obs_in)
        mb = MultiBandObsList()
        mb.append(ol)
    elif isinstance(obs_in, ObsList):
        mb = MultiBandObsList()
        mb.append(obs_in)
    elif isinstance(obs_in, MultiBandObsList):
        mb = obs_in
    else:
        raise ValueError("obs should be Observation, ObsList, or MultiBandObsList")
    return mb
