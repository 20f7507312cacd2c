import copy as _copy
import numpy as np
from .gexceptions import GMixFatalError
from .jacobian import Jacobian, UnitJacobian


class Observation(object):
    """image + weight + masks + jacobian + psf, read-only outside `writeable`"""
    def __init__(self, image, weight=None, bmask=None, ormask=None, noise=None,
                 jacobian=None, gmix=None, psf=None, meta=None, mfrac=None,
                 ignore_zero_weight=True, store_pixels=True):
        self._writeable = False
        self._ignore_zero_weight = bool(ignore_zero_weight)
        self._store_pixels = store_pixels
        self._ready = False
        self._set(image, '_image', 'f8')
        if weight is None:
            weight = np.ones(self._image.shape)
        self._set(weight, '_weight', 'f8')
        if bmask is not None:
            self._set(bmask, '_bmask', 'i4')
        if ormask is not None:
            self._set(ormask, '_ormask', 'i4')
        if noise is not None:
            self._set(noise, '_noise', 'f8')
        if mfrac is not None:
            self._set(mfrac, '_mfrac', 'f8')
        if jacobian is None:
            cen = (np.array(self._image.shape) - 1.0)/2.0
            jacobian = UnitJacobian(row=cen[0], col=cen[1])
        if not isinstance(jacobian, Jacobian):
            raise TypeError('jacobian must be of type Jacobian')
        self._jacobian = jacobian.copy()
        self.meta = {}
        if meta is not None:
            if not isinstance(meta, dict):
                raise TypeError('meta must be a dict')
            self.meta.update(meta)
        if psf is not None:
            self.set_psf(psf)
        if gmix is not None:
            self._gmix = gmix
        self._ready = True
        self.update_pixels()

    # -- storage
    def _set(self, arr, name, dtype):
        if isinstance(arr, np.ndarray) and arr.dtype == np.dtype(dtype):
            a = np.array(arr, dtype=dtype, order='C', copy=True)
        else:
            a = np.array(arr, dtype=dtype, order='C')
        if a.ndim != 2:
            raise ValueError('need 2d, got %s' % (a.shape,))
        if name != '_image' or hasattr(self, '_image'):
            if a.shape != self._image.shape:
                raise ValueError('shape mismatch %s %s' % (a.shape, self._image.shape))
        setattr(self, name, a)

    def _view(self, name):
        v = getattr(self, name).view()
        if not self._writeable:
            v.setflags(write=False)
        return v

    def update_pixels(self):
        if not self._ready or not self._store_pixels:
            return
        if self._ignore_zero_weight and not np.any(self._weight > 0):
            raise GMixFatalError('no weights > 0')

    @property
    def ignore_zero_weight(self):
        return self._ignore_zero_weight

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, val):
        self._ignore_zero_weight = bool(val)
        if not self._writeable:
            self.update_pixels()

    @property
    def image(self):
        return self._view('_image')

    @image.setter
    def image(self, v):
        self.set_image(v)

    def set_image(self, image, update_pixels=True):
        self._set(image, '_image', 'f8')
        if update_pixels and not self._writeable:
            self.update_pixels()

    @property
    def weight(self):
        return self._view('_weight')

    @weight.setter
    def weight(self, v):
        self.set_weight(v)

    def set_weight(self, weight, update_pixels=True):
        self._set(weight, '_weight', 'f8')
        if update_pixels and not self._writeable:
            self.update_pixels()

    def _opt(name, dtype):  # noqa
        attr = '_' + name

        def get(self):
            return self._view(attr)

        def setit(self, v):
            if v is None:
                if hasattr(self, attr):
                    delattr(self, attr)
            else:
                self._set(v, attr, dtype)

        def has(self):
            return hasattr(self, attr)
        return property(get, setit), setit, has

    bmask, set_bmask, has_bmask = _opt('bmask', 'i4')
    ormask, set_ormask, has_ormask = _opt('ormask', 'i4')
    noise, set_noise, has_noise = _opt('noise', 'f8')
    mfrac, set_mfrac, has_mfrac = _opt('mfrac', 'f8')
    del _opt

    @property
    def jacobian(self):
        return self._jacobian if self._writeable else self._jacobian.copy()

    @jacobian.setter
    def jacobian(self, j):
        self.set_jacobian(j)

    def get_jacobian(self):
        return self._jacobian.copy()

    def set_jacobian(self, j, update_pixels=True):
        if not isinstance(j, Jacobian):
            raise TypeError('jacobian must be of type Jacobian')
        self._jacobian = j.copy()

    def set_psf(self, psf):
        if psf is None:
            if hasattr(self, '_psf'):
                del self._psf
        else:
            self._psf = psf

    @property
    def psf(self):
        return self._psf

    @psf.setter
    def psf(self, psf):
        self.set_psf(psf)

    def get_psf(self):
        return self._psf

    def has_psf(self):
        return hasattr(self, '_psf')

    @property
    def gmix(self):
        return self._gmix

    @gmix.setter
    def gmix(self, g):
        self._gmix = g

    def set_gmix(self, g):
        self._gmix = g

    def has_gmix(self):
        return hasattr(self, '_gmix')

    def has_psf_gmix(self):
        return self.has_psf() and self.psf.has_gmix()

    def update_meta_data(self, meta):
        if not isinstance(meta, dict):
            raise TypeError('meta must be a dict')
        self.meta.update(meta)

    def get_s2n(self):
        w = self._weight > 0
        return (self._image[w]*self._weight[w]).sum()/np.sqrt(self._weight[w].sum())

    def copy(self):
        new = Observation.__new__(Observation)
        d = new.__dict__
        for k, v in self.__dict__.items():
            if isinstance(v, np.ndarray):
                d[k] = v.copy()
            elif k == '_psf':
                d[k] = v.copy()
            elif k == '_jacobian':
                d[k] = v.copy()
            elif k == 'meta':
                d[k] = _copy.deepcopy(v)
            else:
                d[k] = v
        d['_writeable'] = False
        return new

    def __deepcopy__(self, memo):
        return self.copy()

    def writeable(self):
        self._writeable = True
        return self

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        self._writeable = False
        if et is None:
            self.update_pixels()
        return False


class ObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {}
        if meta is not None:
            self.meta.update(meta)

    def append(self, obs):
        if not isinstance(obs, Observation):
            raise TypeError('expected Observation, got %s' % type(obs))
        super().append(obs)

    def copy(self):
        new = ObsList(meta=_copy.deepcopy(self.meta))
        for o in self:
            new.append(o.copy())
        return new

    def is_all_zero_weight(self):
        return all(not np.any(o.weight > 0) for o in self)

    def update_meta_data(self, meta):
        self.meta.update(meta)


class MultiBandObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {}
        if meta is not None:
            self.meta.update(meta)

    def append(self, obslist):
        if not isinstance(obslist, ObsList):
            raise TypeError('expected ObsList, got %s' % type(obslist))
        super().append(obslist)

    def copy(self):
        new = MultiBandObsList(meta=_copy.deepcopy(self.meta))
        for o in self:
            new.append(o.copy())
        return new

    def update_meta_data(self, meta):
        self.meta.update(meta)


def get_mb_obs(obs_in):
    if isinstance(obs_in, Observation):
        ol = ObsList()
        ol.append(obs_in)
        mb = MultiBandObsList()
        mb.append(ol)
    elif isinstance(obs_in, ObsList):
        mb = MultiBandObsList()
        mb.append(obs_in)
    elif isinstance(obs_in, MultiBandObsList):
        mb = obs_in
    else:
        raise ValueError('bad obs type: %s' % type(obs_in))
    return mb
