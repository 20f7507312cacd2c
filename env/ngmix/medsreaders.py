import numpy as np
from .gexceptions import GMixFatalError
from .jacobian import Jacobian
from .observation import Observation, ObsList, MultiBandObsList


class NGMixMEDS(object):
    """the part of MEDS/NGMixMEDS used through the in-memory interface"""
    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, name):
        return self._cat[name]

    def _check_indices(self, iobj, icutout=None):
        if iobj >= self._cat.size or iobj < 0:
            raise ValueError('object index out of bounds')
        if icutout is not None:
            n = self._cat['ncutout'][iobj]
            if n == 0:
                raise ValueError('object has no cutouts')
            if icutout >= n or icutout < 0:
                raise ValueError('cutout index out of bounds')

    def get_jacobian(self, iobj, icutout):
        self._check_indices(iobj, icutout=icutout)
        c = self._cat
        return {
            'row0': c['cutout_row'][iobj, icutout],
            'col0': c['cutout_col'][iobj, icutout],
            'dudrow': c['dudrow'][iobj, icutout],
            'dudcol': c['dudcol'][iobj, icutout],
            'dvdrow': c['dvdrow'][iobj, icutout],
            'dvdcol': c['dvdcol'][iobj, icutout],
        }

    def get_ngmix_jacobian(self, iobj, icutout):
        jd = self.get_jacobian(iobj, icutout)
        return Jacobian(row=jd['row0'], col=jd['col0'], dudrow=jd['dudrow'],
                        dudcol=jd['dudcol'], dvdrow=jd['dvdrow'], dvdcol=jd['dvdcol'])

    def get_psf_obs(self, iobj, icutout):
        psf_im = self.get_psf(iobj, icutout)
        c = self._cat
        jd = self.get_jacobian(iobj, icutout)
        jac = Jacobian(row=c['psf_cutout_row'][iobj, icutout],
                       col=c['psf_cutout_col'][iobj, icutout],
                       dudrow=jd['dudrow'], dudcol=jd['dudcol'],
                       dvdrow=jd['dvdrow'], dvdcol=jd['dvdcol'])
        noise = psf_im.max()/1000.0
        wt = psf_im*0 + 1.0/noise**2 if noise > 0 else psf_im*0 + 1.0
        return Observation(psf_im, weight=wt, jacobian=jac)

    def get_obs(self, iobj, icutout, weight_type='weight'):
        im = self.get_cutout(iobj, icutout, type='image')
        kw = {}
        if 'bmask' in self._image_types:
            kw['bmask'] = self.get_cutout(iobj, icutout, type='bmask')
        if 'ormask' in self._image_types:
            kw['ormask'] = self.get_cutout(iobj, icutout, type='ormask')
        if 'noise' in self._image_types and self._has_noise():
            kw['noise'] = self.get_cutout(iobj, icutout, type='noise')
        if weight_type == 'weight':
            wt = self.get_cutout(iobj, icutout, type='weight')
        elif weight_type == 'uberseg':
            wt = self.get_uberseg(iobj, icutout)
        else:
            raise ValueError("bad weight type '%s'" % weight_type)
        c = self._cat
        meta = dict(
            id=c['id'][iobj], index=iobj, icut=icutout,
            orig_row=c['orig_row'][iobj, icutout], orig_col=c['orig_col'][iobj, icutout],
            orig_start_row=c['orig_start_row'][iobj, icutout],
            orig_start_col=c['orig_start_col'][iobj, icutout],
        )
        if self.has_psf():
            kw['psf'] = self.get_psf_obs(iobj, icutout)
        return Observation(im, weight=wt, jacobian=self.get_ngmix_jacobian(iobj, icutout),
                           meta=meta, **kw)

    def _has_noise(self):
        o = getattr(self, 'obs', None)
        return o is None or o.has_noise()

    def get_uberseg(self, iobj, icutout):
        """zero the weight of pixels closer to another segment"""
        wt = self.get_cutout(iobj, icutout, type='weight')
        seg = self.get_cutout(iobj, icutout, type='seg')
        num = self._cat['number'][iobj] if 'number' in self._cat.dtype.names \
            else iobj + 1
        segw = np.argwhere(seg != 0)
        if len(segw) == 0 or np.all(seg[seg != 0] == num):
            return wt
        for r in range(wt.shape[0]):
            for cc in range(wt.shape[1]):
                d = ((segw - [r, cc])**2).sum(axis=1)
                k = segw[np.argmin(d)]
                if seg[k[0], k[1]] != num:
                    wt[r, cc] = 0.0
        return wt

    def get_obslist(self, iobj, weight_type='weight'):
        ol = ObsList()
        for icut in range(self._cat['ncutout'][iobj]):
            try:
                ol.append(self.get_obs(iobj, icut, weight_type=weight_type))
            except GMixFatalError:
                pass  # all zero weight
        return ol


class MultiBandNGMixMEDS(object):
    def __init__(self, mlist):
        self.mlist = mlist
        for m in mlist:
            if m.size != mlist[0].size:
                raise ValueError('size mismatch')
        self.size = mlist[0].size

    def get_mbobs(self, iobj, weight_type='weight'):
        mb = MultiBandObsList()
        for m in self.mlist:
            mb.append(m.get_obslist(iobj, weight_type=weight_type))
        return mb

    def get_mbobs_list(self, indices=None, weight_type='weight'):
        if indices is None:
            indices = range(self.size)
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]
