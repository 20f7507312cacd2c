from .gexceptions import BootPSFFailure


def bootstrap(obs, runner, psf_runner=None, ignore_failed_psf=True):
    """run the psf runner, then the object runner on what is left"""
    if psf_runner is not None:
        psf_runner.go(obs=obs)
        from .observation import get_mb_obs
        for ol in get_mb_obs(obs):
            for o in ol:
                if o.psf.meta['result']['flags'] != 0:
                    raise BootPSFFailure('no good psf fits')
    return runner.go(obs=obs)
