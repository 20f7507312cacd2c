from .observation import Observation, ObsList, MultiBandObsList


class Runner(object):
    def __init__(self, fitter, guesser=None, ntry=1):
        self.fitter = fitter
        self.guesser = guesser
        self.ntry = ntry

    def go(self, obs):
        res = None
        for i in range(self.ntry):
            guess = None if self.guesser is None else self.guesser(obs=obs)
            if guess is None:
                res = self.fitter.go(obs=obs)
            else:
                res = self.fitter.go(obs=obs, guess=guess)
            if res['flags'] == 0:
                break
        return res


class PSFRunner(Runner):
    def __init__(self, fitter, guesser=None, ntry=1, set_result=True):
        super().__init__(fitter, guesser, ntry)
        self.set_result = set_result

    def go(self, obs):
        if isinstance(obs, MultiBandObsList):
            return [[self.go(o) for o in ol] for ol in obs]
        if isinstance(obs, ObsList):
            return [self.go(o) for o in obs]
        if not isinstance(obs, Observation):
            raise TypeError('bad obs type')
        psf = obs.psf if obs.has_psf() else obs
        res = super().go(obs=psf)
        if self.set_result:
            psf.meta['result'] = res
            if res['flags'] == 0:
                psf.gmix = ('gmix', 'set')
        return res
