from . import env as _env


class _Guesser(object):
    def __init__(self, rng=None, **kw):
        self.rng = rng
        self.kw = kw

    def __call__(self, obs=None, nrand=None):
        # a check may want to see the random numbers a real guess would use
        ans = _env.ask('guess', rng=self.rng)
        return {'guess': True} if ans is None else {'guess': True, 'value': ans}


class GMixPSFGuesser(_Guesser):
    def __init__(self, rng, ngauss, guess_from_moms=False):
        super().__init__(rng, ngauss=ngauss)


class SimplePSFGuesser(_Guesser):
    def __init__(self, rng, guess_from_moms=False):
        super().__init__(rng)


class TPSFFluxGuesser(_Guesser):
    def __init__(self, rng, T, prior=None):
        super().__init__(rng, T=T, prior=prior)
