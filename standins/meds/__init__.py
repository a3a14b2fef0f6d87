"""Stand-in for esheldon/meds (the installed 'meds' is an unrelated package)."""
from .meds import MEDS  # noqa
from . import util  # noqa
