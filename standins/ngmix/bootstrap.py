from .observation import Observation, ObsList, MultiBandObsList
from .gexceptions import BootPSFFailure


def remove_failed_psf_obs(obs):
    if isinstance(obs, MultiBandObsList):
        new = MultiBandObsList(meta=obs.meta)
        for ol in obs:
            new.append(remove_failed_psf_obs(ol))
        return new
    if isinstance(obs, ObsList):
        new = ObsList(meta=obs.meta)
        for o in obs:
            if o.psf.meta["result"]["flags"] == 0:
                new.append(o)
        if len(new) == 0:
            raise BootPSFFailure("all psf fits failed")
        return new
    assert isinstance(obs, Observation)
    if obs.psf.meta["result"]["flags"] != 0:
        raise BootPSFFailure("psf fit failed")
    return obs


def bootstrap(obs, runner, psf_runner=None, ignore_failed_psf=True):
    if psf_runner is not None:
        psf_runner.go(obs=obs)
        if ignore_failed_psf:
            obs = remove_failed_psf_obs(obs)
    return runner.go(obs=obs)
