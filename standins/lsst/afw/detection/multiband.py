from lsst.afw.detection import HeavyFootprint
from lsst.afw.image import MaskedImage


class MultibandFootprint:
    def __init__(self, bands, singles):
        self.bands, self.singles = tuple(bands), singles
        self.footprint = singles[0]

    @staticmethod
    def fromImages(bands, image, mask=None, variance=None, footprint=None):
        return MultibandFootprint(
            bands, [HeavyFootprint(footprint, MaskedImage(image[b])) for b in bands])

    def __getitem__(self, b):
        return self.singles[self.bands.index(b)]

    def getBBox(self):
        return self.footprint.getBBox()
