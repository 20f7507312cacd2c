class PriorSimpleSep(object):
    def __init__(self, cen_prior, g_prior, T_prior, F_prior):
        self.F_prior = F_prior
        self.nband = len(F_prior) if isinstance(F_prior, (list, tuple)) else 1
