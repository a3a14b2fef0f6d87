"""Stand-in for esheldon/sxdes: DES SExtractor settings run through sep."""
import numpy as np

DETECT_THRESH = 0.8
_k = np.array([
    [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963],
    [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
    [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
    [0.068707, 0.296069, 0.710525, 0.951108, 0.710525, 0.296069, 0.068707],
    [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
    [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
    [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963],
])
SX_CONFIG = {
    "deblend_cont": 0.00001, "deblend_nthresh": 64, "minarea": 4,
    "filter_type": "conv", "filter_kernel": _k,
}
BAD = -9999.0


# for the checks: a callable that replaces the extraction and sees its arguments
HOOK = None


def run_sep(image, noise, mask=None, config=None, thresh=DETECT_THRESH):
    import sep
    import esutil as eu
    if HOOK is not None:
        return HOOK(image=image, noise=noise, mask=mask, config=config,
                    thresh=thresh)
    if config is None:
        config = SX_CONFIG
    image = np.ascontiguousarray(image, dtype="f8")
    objs, seg = sep.extract(image, thresh, err=noise, mask=mask,
                            segmentation_map=True, **config)
    dt = [("number", "i4"), ("fluxerr_auto", "f4"), ("kron_radius", "f4"),
          ("flux_radius", "f4"), ("isoarea_image", "f4"), ("iso_radius", "f4"),
          ("flux_auto", "f4")]
    dt = [d for d in dt if d[0] not in objs.dtype.names]
    out = eu.numpy_util.add_fields(objs, dt)
    out["number"] = np.arange(1, out.size + 1)
    if out.size > 0:
        out["isoarea_image"] = [
            max(int((seg == n).sum()), 1) for n in out["number"]]
        out["iso_radius"] = np.sqrt(out["isoarea_image"]/np.pi)
        try:
            kr, _ = sep.kron_radius(image, objs["x"], objs["y"], objs["a"],
                                    objs["b"], objs["theta"], 6.0)
            fr, _ = sep.flux_radius(image, objs["x"], objs["y"], 6.0*objs["a"],
                                    0.5, normflux=np.maximum(objs["flux"], 1e-9),
                                    subpix=5)
        except Exception:
            kr = np.full(out.size, 1.0)
            fr = objs["a"].copy()
        out["kron_radius"] = kr
        out["flux_radius"] = np.where(np.isfinite(fr) & (fr > 0), fr, 1.0)
        out["flux_auto"] = objs["flux"]
    return out, seg
