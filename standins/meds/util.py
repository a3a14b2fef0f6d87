import numpy as np


def get_image_info_struct(nimage, path_len, **kw):
    dt = [("image_id", "i8"), ("image_flags", "i8"), ("magzp", "f4"),
          ("scale", "f4"), ("position_offset", "f8")]
    for n in ("image_path", "weight_path", "bmask_path", "seg_path"):
        dt += [(n, "U%d" % path_len)]
    d = np.zeros(nimage, dtype=dt)
    d["scale"] = 1.0
    return d
