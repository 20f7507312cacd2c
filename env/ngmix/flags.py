"""same bits and names as ngmix.flags"""
import numpy as np
NO_ATTEMPT = 2**0
ZERO_WEIGHTS = 2**1
LM_SINGULAR_MATRIX = 2**2
LM_NEG_COV_EIG = 2**3
LM_NEG_COV_DIAG = 2**4
EIG_NOTFINITE = 2**5
DIV_ZERO = 2**6
LM_FUNC_NOTFINITE = 2**7
NONPOS_FLUX = 2**8
NONPOS_SIZE = 2**9
LOW_DET = 2**10
MAXITER = 2**11
NONPOS_VAR = 2**12
NONPOS_SHAPE_VAR = 2**13
GMIX_RANGE_ERROR = 2**14
CEN_SHIFT = 2**15
BAD_VAR = 2**16

NAME_MAP = {
    ZERO_WEIGHTS: "all weights are zero",
    NO_ATTEMPT: "no attempt",
    LM_SINGULAR_MATRIX: "singular matrix",
    LM_NEG_COV_EIG: "negative covariance eigenvalue",
    LM_NEG_COV_DIAG: "negative covariance diagonal value",
    EIG_NOTFINITE: "eigenvalue not finite",
    DIV_ZERO: "division by zero",
    LM_FUNC_NOTFINITE: "function not finite",
    NONPOS_FLUX: "flux <= 0",
    NONPOS_SIZE: "T <= 0",
    LOW_DET: "determinant near zero",
    MAXITER: "max iterations reached",
    NONPOS_VAR: "non-positive (i.e., zero or negative) variance",
    NONPOS_SHAPE_VAR: "non-positive (i.e., zero or negative) shape variance",
    GMIX_RANGE_ERROR: "GMixRangeError raised",
    CEN_SHIFT: "center shifted too far",
    BAD_VAR: "variance is bad",
}
for _k, _v in list(NAME_MAP.items()):
    NAME_MAP[_v] = _k


def get_flags_str(val, name_map=None):
    """Get a descriptive string given a flag value."""
    nm = name_map or NAME_MAP
    _nm = {k: v for k, v in nm.items() if not isinstance(k, str)}
    out = []
    for i in range(32):
        if np.any((np.asarray(val).astype("i8") & 2**i) != 0):
            out.append(_nm.get(2**i, "bit 2**%d" % i))
    return "|".join(out)
