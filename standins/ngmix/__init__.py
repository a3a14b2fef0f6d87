"""Stand-in for ngmix 2.3 (only what metadetect touches, same contracts)."""
__version__ = "2.3.2"
from . import flags, gexceptions, shape, moments  # noqa
from .gexceptions import (  # noqa
    GMixRangeError, GMixFatalError, GMixMaxIterEM, PSFFluxFailure,
    BootPSFFailure, BootGalFailure, FFTRangeError, MetaCalFitError,
)
from .jacobian import Jacobian, DiagonalJacobian, UnitJacobian  # noqa
from . import jacobian, observation  # noqa
from .observation import (  # noqa
    Observation, ObsList, MultiBandObsList, get_mb_obs,
)
from . import gmix  # noqa
from .gmix import GMix, GMixModel  # noqa
from . import gaussmom, prepsfmom, ksigmamom, admom, priors, joint_prior  # noqa
from . import guessers, fitting, runners, bootstrap, metacal, medsreaders  # noqa
from .bootstrap import bootstrap as _bootstrap_func  # noqa
