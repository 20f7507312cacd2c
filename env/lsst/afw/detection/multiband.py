from . import HeavyFootprintF, makeHeavyFootprint
from ..image import MaskedImage


class MultibandFootprint(object):
    def __init__(self, bands, singles):
        self.bands = tuple(bands)
        self.singles = list(singles)

    @staticmethod
    def fromImages(bands, image, mask=None, variance=None, footprint=None, thresh=None):
        singles = []
        for b in bands:
            im = image[b]
            if im.dtype != 'f4':
                from ..image import ImageF
                im = ImageF(im, deep=True)
            singles.append(makeHeavyFootprint(footprint, MaskedImage(im)))
        return MultibandFootprint(bands, singles)

    def __getitem__(self, b):
        if isinstance(b, str):
            return self.singles[self.bands.index(b)]
        return self.singles[b]

    def __len__(self):
        return len(self.bands)

    def getBBox(self):
        return self.singles[0].getBBox()


_ = HeavyFootprintF
