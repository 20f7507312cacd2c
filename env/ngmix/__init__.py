"""Stand-in for ngmix (not installed in this sandbox).

It models the part of ngmix's public behaviour that metadetect relies on
(observations with read-only views and a writeable context, jacobians, gaussian
weighted sums, moment results, fitters/runners/bootstrap, metacal entry point,
MEDS readers).  Fitters compute real gaussian weighted moments by default; every
environment answer that can go wrong (a PSF fit, an object fit, metacal) asks
`ngmix.env` first, so that a check can enumerate those answers.
"""
__version__ = "2.3.2"

from . import env  # noqa
from . import flags  # noqa
from . import gexceptions  # noqa
from .gexceptions import (  # noqa
    GMixFatalError, GMixRangeError, BootPSFFailure, PSFFluxFailure, GMixMaxIterEM,
)
from . import shape  # noqa
from .shape import Shape  # noqa
from . import moments  # noqa
from . import jacobian  # noqa
from .jacobian import Jacobian, DiagonalJacobian, UnitJacobian  # noqa
from . import observation  # noqa
from .observation import (  # noqa
    Observation, ObsList, MultiBandObsList, get_mb_obs,
)
from . import gmix  # noqa
from .gmix import GMixModel, GMix  # noqa
from . import gaussmom  # noqa
from . import prepsfmom  # noqa
from . import ksigmamom  # noqa
from . import admom  # noqa
from . import guessers  # noqa
from . import runners  # noqa
from . import bootstrap  # noqa
from . import fitting  # noqa
from . import priors  # noqa
from . import joint_prior  # noqa
from . import metacal  # noqa
from . import medsreaders  # noqa
