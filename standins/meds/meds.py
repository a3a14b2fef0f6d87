import numpy as np


class MEDS:
    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, n):
        return self._cat[n]

    def get_cat(self):
        return self._cat

    def _check_indices(self, iobj, icutout=None):
        if iobj >= self._cat.size or iobj < 0:
            raise ValueError("object index should be within [0,%s)" % self._cat.size)
        if icutout is not None:
            n = self._cat["ncutout"][iobj]
            if n == 0:
                raise ValueError("object has no cutouts")
            if icutout >= n or icutout < 0:
                raise ValueError("requested cutout index %s of object %s is out "
                                 "of bounds [0,%s)" % (icutout, iobj, n))

    def get_jacobian(self, iobj, icutout):
        c = self._cat
        return {"row0": c["cutout_row"][iobj, icutout],
                "col0": c["cutout_col"][iobj, icutout],
                "dudrow": c["dudrow"][iobj, icutout],
                "dudcol": c["dudcol"][iobj, icutout],
                "dvdrow": c["dvdrow"][iobj, icutout],
                "dvdcol": c["dvdcol"][iobj, icutout]}

    def get_uberseg(self, iobj, icutout, fast=True):
        """weight map, zeroed where the nearest segment is another object's"""
        weight = self.get_cutout(iobj, icutout, type="weight")
        seg = self.get_cutout(iobj, icutout, type="seg")
        if len(np.unique(seg)) <= 2:
            return weight
        orow, ocol = np.nonzero(seg)
        num = self._cat["number"][iobj]
        rows, cols = np.mgrid[:seg.shape[0], :seg.shape[1]]
        d2 = (rows[..., None] - orow)**2 + (cols[..., None] - ocol)**2
        near = seg[orow, ocol][np.argmin(d2, axis=-1)]
        weight[near != num] = 0.0
        return weight
