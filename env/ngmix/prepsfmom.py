from .gaussmom import _WeightedMom


class PrePSFMom(_WeightedMom):
    def __init__(self, fwhm, kernel, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm)
        self.kernel = kernel
        self.pad_factor = pad_factor
        self.ap_rad = ap_rad
        self.fwhm_smooth = fwhm_smooth
        self.kind = 'ksigma' if kernel in ('ksigma', 'sk') else 'pgauss'

    def go(self, obs, return_kernels=False, no_psf=False):
        if not no_psf and not obs.has_psf():
            raise RuntimeError("The PSF must be set to measure a pre-PSF moment!")
        return super().go(obs, no_psf=no_psf)


class KSigmaMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, 'ksigma', pad_factor, ap_rad, fwhm_smooth)


class PGaussMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, 'pgauss', pad_factor, ap_rad, fwhm_smooth)
