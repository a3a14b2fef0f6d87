import meds
from .gexceptions import GMixFatalError
from .jacobian import Jacobian
from .observation import Observation, ObsList, MultiBandObsList

IMAGE_FLAGS = 2**5


class NGMixMEDS(meds.MEDS):
    def get_obslist(self, iobj, weight_type="weight"):
        self._check_indices(iobj)
        obslist = ObsList()
        for icut in range(self._cat["ncutout"][iobj]):
            try:
                obslist.append(self.get_obs(iobj, icut, weight_type=weight_type))
            except GMixFatalError:
                pass
        obslist.meta["flags"] = 0 if len(obslist) > 0 else IMAGE_FLAGS
        return obslist

    def _opt(self, iobj, icut, name):
        if name not in getattr(self, "_image_types", ("bmask", "ormask", "noise",
                                                      "mfrac")):
            return None
        try:
            return self.get_cutout(iobj, icut, type=name)
        except AttributeError:
            return None

    def get_obs(self, iobj, icutout, weight_type="weight"):
        self._check_indices(iobj, icutout=icutout)
        im = self.get_cutout(iobj, icutout, type="image")
        jd = self.get_jacobian(iobj, icutout)
        if weight_type == "uberseg":
            wt = self.get_uberseg(iobj, icutout)
        elif weight_type == "weight":
            wt = self.get_cutout(iobj, icutout, type="weight")
        else:
            raise ValueError("bad weight type: '%s'" % weight_type)
        kw = {n: self._opt(iobj, icutout, n)
              for n in ("bmask", "ormask", "noise", "mfrac")}
        jac = Jacobian(row=jd["row0"], col=jd["col0"], dudrow=jd["dudrow"],
                       dudcol=jd["dudcol"], dvdrow=jd["dvdrow"],
                       dvdcol=jd["dvdcol"])
        c = self._cat
        meta = {"id": c["id"][iobj], "icut": icutout, "cutout_index": icutout,
                "orig_row": c["orig_row"][iobj, icutout],
                "orig_col": c["orig_col"][iobj, icutout],
                "orig_start_row": c["orig_start_row"][iobj, icutout],
                "orig_start_col": c["orig_start_col"][iobj, icutout]}
        return Observation(im, weight=wt, jacobian=jac, meta=meta,
                           psf=self.get_psf_obs(iobj, icutout), **kw)

    def get_psf_obs(self, iobj, icutout):
        im = self.get_psf(iobj, icutout)
        jd = self.get_jacobian(iobj, icutout)
        c = self._cat
        jac = Jacobian(row=c["psf_cutout_row"][iobj, icutout],
                       col=c["psf_cutout_col"][iobj, icutout],
                       dudrow=jd["dudrow"], dudcol=jd["dudcol"],
                       dvdrow=jd["dvdrow"], dvdcol=jd["dvdcol"])
        noise = im.max()/1000.0
        return Observation(im, weight=im*0 + 1.0/noise**2, jacobian=jac)


class MultiBandNGMixMEDS:
    def __init__(self, mlist):
        self.mlist = mlist

    @property
    def size(self):
        return self.mlist[0].size

    def get_mbobs_list(self, indices=None, weight_type="weight"):
        if indices is None:
            indices = range(self.size)
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]

    def get_mbobs(self, iobj, weight_type="weight"):
        mb = MultiBandObsList()
        for m in self.mlist:
            mb.append(m.get_obslist(iobj, weight_type=weight_type))
        return mb
