from .prepsfmom import KSigmaMom, PrePSFMom  # noqa
