"""schemas, tables, source records and catalogs"""
import numpy as np
from .. import geom as _geom


class Schema(object):
    def __init__(self):
        self.names = {'id': 0, 'parent': 0}

    def addField(self, name, default=0, **kw):
        self.names[name] = default


class SourceTable(object):
    def __init__(self, schema):
        self.schema = schema
        self._id = 0

    @staticmethod
    def makeMinimalSchema():
        return Schema()

    @staticmethod
    def make(schema, *a):
        return SourceTable(schema)

    def makeRecord(self):
        self._id += 1
        return SourceRecord(self.schema, self._id)


class SourceRecord(object):
    def __init__(self, schema, sid, parent=0):
        self._v = dict(schema.names)
        self._v['id'] = sid
        self._v['parent'] = parent
        self._fp = None
        self._cen = _geom.Point2D(np.nan, np.nan)
        self._coord = _geom.SpherePoint(np.nan, np.nan)

    def getId(self):
        return self._v['id']

    def getParent(self):
        return self._v['parent']

    def setParent(self, p):
        self._v['parent'] = p

    def getFootprint(self):
        return self._fp

    def setFootprint(self, f):
        self._fp = f

    def getCentroid(self):
        return self._cen

    def getX(self):
        return self._cen.x

    def getY(self):
        return self._cen.y

    def getCoord(self):
        return self._coord

    def get(self, k):
        if k in ('base_SdssCentroid_x', 'base_SdssCentroid_y'):
            return self._cen.x if k[-1] == 'x' else self._cen.y
        return self._v[k]

    __getitem__ = get

    def __setitem__(self, k, v):
        if k not in self._v:
            raise KeyError(k)
        self._v[k] = v

    set = __setitem__


class SourceCatalog(object):
    def __init__(self, table_or_records=()):
        if isinstance(table_or_records, SourceTable):
            self.table = table_or_records
            self._r = []
        else:
            self.table = None
            self._r = list(table_or_records)

    def append(self, r):
        self._r.append(r)

    def addNew(self):
        r = self.table.makeRecord()
        self._r.append(r)
        return r

    def __len__(self):
        return len(self._r)

    def __iter__(self):
        return iter(list(self._r))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SourceCatalog(self._r[i])
        if isinstance(i, str):
            return np.array([r[i] for r in self._r])
        return self._r[i]

    def isSorted(self):
        ids = [r.getId() for r in self._r]
        return ids == sorted(ids)

    def sort(self):
        self._r.sort(key=lambda r: r.getId())

    def find(self, sid):
        """needs a catalog sorted by id"""
        if not self.isSorted():
            raise RuntimeError('catalog is not sorted by id')
        for r in self._r:
            if r.getId() == sid:
                return r
        return None

    def copy(self, deep=False):
        return SourceCatalog(self._r)
