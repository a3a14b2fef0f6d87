from .metacal import (  # noqa
    get_all_metacal, DEFAULT_STEP, METACAL_TYPES, METACAL_MINIMAL_TYPES,
)
from . import metacal  # noqa
