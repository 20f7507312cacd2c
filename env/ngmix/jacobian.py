import numpy as np


class Jacobian(object):
    """u = dudrow*(row-row0) + dudcol*(col-col0), v likewise"""
    def __init__(self, **kw):
        if 'x' in kw:
            self.row0 = float(kw['y'])
            self.col0 = float(kw['x'])
            self._m = [float(kw['dvdy']), float(kw['dvdx']),
                       float(kw['dudy']), float(kw['dudx'])]
        elif 'row' in kw:
            self.row0 = float(kw['row'])
            self.col0 = float(kw['col'])
            if 'wcs' in kw:
                w = kw['wcs']
                self._m = [w.dvdy, w.dvdx, w.dudy, w.dudx]
            else:
                self._m = [float(kw['dvdrow']), float(kw['dvdcol']),
                           float(kw['dudrow']), float(kw['dudcol'])]
        else:
            raise ValueError('send x,y or row,col')
        det = self.det
        if det == 0:
            raise ValueError('jacobian determinant is zero')

    dvdrow = property(lambda self: self._m[0])
    dvdcol = property(lambda self: self._m[1])
    dudrow = property(lambda self: self._m[2])
    dudcol = property(lambda self: self._m[3])
    dvdy = dvdrow
    dvdx = dvdcol
    dudy = dudrow
    dudx = dudcol

    @property
    def det(self):
        return self.dudcol*self.dvdrow - self.dudrow*self.dvdcol

    @property
    def sdet(self):
        return np.sqrt(np.abs(self.det))

    @property
    def area(self):
        return np.abs(self.det)

    @property
    def scale(self):
        return np.sqrt(np.abs(self.det))

    def get_det(self):
        return self.det

    def get_scale(self):
        return np.sqrt(np.abs(self.det))

    def get_area(self):
        return np.abs(self.det)

    @property
    def cen(self):
        return self.row0, self.col0

    def get_cen(self):
        return self.row0, self.col0

    def get_row0(self):
        return self.row0

    def get_col0(self):
        return self.col0

    def set_cen(self, **kw):
        if 'row' in kw:
            self.row0 = float(kw['row'])
            self.col0 = float(kw['col'])
        elif 'x' in kw:
            self.row0 = float(kw['y'])
            self.col0 = float(kw['x'])
        else:
            raise ValueError('send row,col or x,y')

    def get_vu(self, row, col):
        dr = row - self.row0
        dc = col - self.col0
        return (self.dvdrow*dr + self.dvdcol*dc,
                self.dudrow*dr + self.dudcol*dc)

    def __call__(self, row, col):
        return self.get_vu(row, col)

    def get_rowcol(self, v, u):
        det = self.det
        row = (self.dudcol*v - self.dvdcol*u)/det + self.row0
        col = (-self.dudrow*v + self.dvdrow*u)/det + self.col0
        return row, col

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(self.dudcol, self.dudrow, self.dvdcol, self.dvdrow)

    def copy(self):
        return Jacobian(row=self.row0, col=self.col0, dvdrow=self.dvdrow,
                        dvdcol=self.dvdcol, dudrow=self.dudrow, dudcol=self.dudcol)

    def __eq__(self, other):
        return (isinstance(other, Jacobian) and self.cen == other.cen
                and self._m == other._m)

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return ('row0: %-10.5g col0: %-10.5g dvdrow: %-10.5g dvdcol: %-10.5g '
                'dudrow: %-10.5g dudcol: %-10.5g' % (
                    self.row0, self.col0, self.dvdrow, self.dvdcol,
                    self.dudrow, self.dudcol))


class DiagonalJacobian(Jacobian):
    def __init__(self, scale=1.0, **kw):
        if 'x' in kw:
            row, col = kw['y'], kw['x']
        else:
            row, col = kw['row'], kw['col']
        super().__init__(row=row, col=col, dvdrow=scale, dvdcol=0.0,
                         dudrow=0.0, dudcol=scale)


class UnitJacobian(DiagonalJacobian):
    def __init__(self, **kw):
        super().__init__(scale=1.0, **kw)
