"""Small local stand-in for the parts of the Rubin science pipelines used by
metadetect.lsst (see standins/README.md)."""
