from .observation import Observation, ObsList, MultiBandObsList
from .gexceptions import GMixRangeError


def run_fitter(obs, fitter, guesser, ntry=1):
    res = None
    for i in range(ntry):
        if guesser is not None:
            res = fitter.go(obs=obs, guess=guesser(obs=obs))
        else:
            res = fitter.go(obs=obs)
        if res["flags"] == 0:
            break
    return res


class RunnerBase:
    def __init__(self, fitter, guesser=None, ntry=1):
        self.fitter, self.guesser, self.ntry = fitter, guesser, ntry


class Runner(RunnerBase):
    def go(self, obs):
        return run_fitter(obs=obs, fitter=self.fitter, guesser=self.guesser,
                          ntry=self.ntry)


class PSFRunner(RunnerBase):
    def __init__(self, fitter, guesser=None, ntry=1, set_result=True):
        super().__init__(fitter, guesser, ntry)
        self.set_result = set_result

    def go(self, obs):
        if isinstance(obs, MultiBandObsList):
            return [self.go(o) for o in obs]
        if isinstance(obs, ObsList):
            return [self.go(o) for o in obs]
        if not isinstance(obs, Observation):
            raise ValueError("obs must be Observation, ObsList or MultiBandObsList")
        pobs = obs.psf if obs.has_psf() else obs
        res = run_fitter(obs=pobs, fitter=self.fitter, guesser=self.guesser,
                         ntry=self.ntry)
        if self.set_result:
            pobs.meta["result"] = res
            if res["flags"] == 0:
                pobs.gmix = res.get_gmix()
        return res
