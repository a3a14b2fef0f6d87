import numpy as np

from lsst.geom import Angle, Point2D, SpherePoint


class Schema:
    def __init__(self):
        self.fields = []

    def addField(self, name, *a, **kw):
        self.fields.append(name)

    def getNames(self):
        return set(self.fields)


class SourceRecord:
    def __init__(self, id, table):
        self._id, self.table = id, table
        self._parent, self._fp = 0, None
        self._v = {"deblend_nChild": 0}
        self._cen = None
        self._coord = SpherePoint(Angle(np.nan), Angle(np.nan))

    def getId(self):
        return self._id

    def setId(self, v):
        self._id = v

    def getParent(self):
        return self._parent

    def setParent(self, v):
        self._parent = v

    def getFootprint(self):
        return self._fp

    def setFootprint(self, v):
        self._fp = v

    def getCentroid(self):
        if self._cen is None:
            return self._fp.getPeaks()[0].getCentroid()
        return Point2D(self._cen)

    def setCentroid(self, p):
        self._cen = p

    def getCoord(self):
        return self._coord

    def setCoord(self, c):
        self._coord = c

    def _known(self, k):
        if k in ("id",):
            return self._id
        if k == "parent":
            return self._parent
        if k not in self._v:
            raise KeyError(k)
        return self._v[k]

    def __getitem__(self, k):
        return self._known(k)

    get = __getitem__

    def __setitem__(self, k, v):
        self._v[k] = v

    set = __setitem__

    def getSchema(self):
        return self.table.schema

    schema = property(getSchema)

    def getTable(self):
        return self.table

    def getRa(self):
        return self._coord.getRa()

    def getDec(self):
        return self._coord.getDec()

    def getX(self):
        return self.getCentroid().x

    def getY(self):
        return self.getCentroid().y


class SourceTable:
    def __init__(self, schema):
        self.schema = schema
        self._next = 1

    @staticmethod
    def makeMinimalSchema():
        return Schema()

    @staticmethod
    def make(schema, *a):
        return SourceTable(schema)

    def getSchema(self):
        return self.schema


class SourceCatalog:
    def __init__(self, table):
        self.table = table if isinstance(table, SourceTable) else SourceTable(table)
        self._r = []

    def addNew(self, id=None):
        if id is None:
            id = self.table._next
        self.table._next = max(self.table._next, id) + 1
        r = SourceRecord(id, self.table)
        self._r.append(r)
        return r

    def find(self, id):
        for r in self._r:
            if r.getId() == id:
                return r
        return None

    def getSchema(self):
        return self.table.schema

    schema = property(getSchema)

    def getTable(self):
        return self.table

    def append(self, r):
        self._r.append(r)

    def extend(self, o, deep=False):
        self._r.extend(o)

    def sort(self, key=None):
        self._r.sort(key=lambda r: r.getId() if key is None else r[key])

    def isSorted(self, key=None):
        i = [r.getId() if key is None else r[key] for r in self._r]
        return i == sorted(i)

    def isContiguous(self):
        return True

    def copy(self, deep=False):
        c = SourceCatalog(self.table)
        c._r = list(self._r)
        return c

    def getChildren(self, parent):
        if isinstance(parent, (int, np.integer)):
            return [r for r in self._r if r.getParent() == parent]
        return [[r for r in self._r if r.getParent() == p] for p in parent]

    def get(self, k):
        return self[k]

    def __len__(self):
        return len(self._r)

    def __iter__(self):
        return iter(self._r)

    def __getitem__(self, k):
        if isinstance(k, str):
            return np.array([r[k] for r in self._r])
        if isinstance(k, slice):
            c = SourceCatalog(self.table)
            c._r = self._r[k]
            return c
        if isinstance(k, (np.ndarray, list)):
            k = np.asarray(k)
            c = SourceCatalog(self.table)
            c._r = [self._r[i] for i in (np.flatnonzero(k) if k.dtype == bool else k)]
            return c
        return self._r[k]
