import copy
import numpy as np

_dtype = [(n, "f8") for n in (
    "row0", "col0", "det", "scale", "dvdrow", "dvdcol", "dudrow", "dudcol")]


class Jacobian:
    def __init__(self, **kw):
        self._data = np.zeros(1, dtype=_dtype)
        if "x" in kw:
            row, col = kw["y"], kw["x"]
        else:
            row, col = kw["row"], kw["col"]
        if "wcs" in kw:
            w = kw["wcs"]
            vals = (w.dvdy, w.dvdx, w.dudy, w.dudx)
        elif "dudx" in kw:
            vals = (kw["dvdy"], kw["dvdx"], kw["dudy"], kw["dudx"])
        else:
            vals = (kw["dvdrow"], kw["dvdcol"], kw["dudrow"], kw["dudcol"])
        self._set(row, col, *vals)

    def _set(self, row, col, dvdrow, dvdcol, dudrow, dudcol):
        d = self._data
        d["row0"], d["col0"] = row, col
        d["dvdrow"], d["dvdcol"] = dvdrow, dvdcol
        d["dudrow"], d["dudcol"] = dudrow, dudcol
        det = dvdrow*dudcol - dvdcol*dudrow
        d["det"] = det
        d["scale"] = np.sqrt(np.abs(det))

    def get_cen(self):
        return self.row0, self.col0

    cen = property(get_cen)
    row0 = property(lambda s: float(s._data["row0"][0]))
    col0 = property(lambda s: float(s._data["col0"][0]))
    dvdrow = property(lambda s: float(s._data["dvdrow"][0]))
    dvdcol = property(lambda s: float(s._data["dvdcol"][0]))
    dudrow = property(lambda s: float(s._data["dudrow"][0]))
    dudcol = property(lambda s: float(s._data["dudcol"][0]))
    det = property(lambda s: float(s._data["det"][0]))
    scale = property(lambda s: float(s._data["scale"][0]))
    sdet = scale
    area = property(lambda s: abs(s.det))

    def get_dvdrow(self): return self.dvdrow
    def get_dvdcol(self): return self.dvdcol
    def get_dudrow(self): return self.dudrow
    def get_dudcol(self): return self.dudcol
    def get_det(self): return self.det
    def get_scale(self): return self.scale
    def get_area(self): return abs(self.det)

    def set_cen(self, **kw):
        if "row" in kw:
            row, col = kw["row"], kw["col"]
        else:
            row, col = kw["y"], kw["x"]
        self._data["row0"], self._data["col0"] = row, col

    def get_vu(self, row, col):
        rd, cd = row - self.row0, col - self.col0
        v = self.dvdrow*rd + self.dvdcol*cd
        u = self.dudrow*rd + self.dudcol*cd
        return v, u

    __call__ = get_vu

    def get_rowcol(self, v, u):
        row = (self.dudcol*v - self.dvdcol*u)/self.det + self.row0
        col = (-self.dudrow*v + self.dvdrow*u)/self.det + self.col0
        return row, col

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(
            self.dudcol, self.dudrow, self.dvdcol, self.dvdrow)

    def copy(self):
        return copy.deepcopy(self)

    def __repr__(self):
        fmt = ("row0: %-10.5g col0: %-10.5g dvdrow: %-10.5g "
               "dvdcol: %-10.5g dudrow: %-10.5g dudcol: %-10.5g")
        return fmt % (self.row0, self.col0, self.dvdrow, self.dvdcol,
                      self.dudrow, self.dudcol)


class DiagonalJacobian(Jacobian):
    def __init__(self, *, scale=1.0, row=None, col=None, x=None, y=None):
        if x is not None:
            row, col = y, x
        super().__init__(row=row, col=col, dvdrow=scale, dvdcol=0.0,
                         dudrow=0.0, dudcol=scale)


class UnitJacobian(DiagonalJacobian):
    def __init__(self, *, row=None, col=None, x=None, y=None):
        super().__init__(scale=1.0, row=row, col=col, x=x, y=y)
