import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
sys.stderr = open(os.devnull, "w")
import numpy as np
np.seterr(all="ignore")
from ais_benchmarks.distributions import *
from ais_benchmarks.sampling_methods import *


class Target(CDistribution):
    """A target density given by a function of a (n, dims) array that counts where it is evaluated."""

    def __init__(self, fn, dims, lo=0.0, hi=1.0):
        self.fn = fn
        self.points = []
        super().__init__({"type": "demo", "family": "demo", "dims": dims, "likelihood_f": self.prob,
                          "loglikelihood_f": self.log_prob, "support": [np.full(dims, lo), np.full(dims, hi)]})

    def prob(self, x):
        x = np.asarray(x, dtype=float).reshape(-1, self.dims)
        self.points.extend(x.tolist())
        return np.asarray(self.fn(x), dtype=float).reshape(-1)

    def log_prob(self, x):
        return np.log(self.prob(x))

    def sample(self, n=1):
        raise NotImplementedError

    def condition(self, d):
        raise NotImplementedError

    def marginal(self, d):
        raise NotImplementedError


def bump(c=.3, s=.1):
    return lambda x: np.exp(-.5 * np.sum(((x - c) / s) ** 2, axis=1))


def sampler(kind, dims=1, lo=0.0, hi=1.0, **k):
    z = "CMultivariateNormal({'mean': np.zeros(%d), 'sigma': np.eye(%d) * .04})" % (dims, dims)
    c = "CMultivariateUniform({'center': np.full(%d, %r), 'radius': np.full(%d, %r)})" % (dims, (lo + hi) / 2, dims, (hi - lo) / 2)
    cls, p = {
        "dm": (CDeterministicMixtureAIS, dict(K=3, N=3, J=1000, sigma=.02)),
        "pmc": (CMixturePMC, dict(K=20, N=2, J=1000, sigma=.02)),
        "lais": (CLayeredAIS, dict(K=3, N=2, J=1000, L=2, sigma=.02, mh_sigma=.02)),
        "rej": (CRejectionSampling, dict(scaling=1, proposal=c, kde_bw=.01, n_samples_kde=5)),
        "mh": (CMetropolisHastings, dict(n_burnin=3, n_steps=2, proposal_sigma=.04, kde_bw=.01, n_samples_kde=5)),
        "nested": (CNestedSampling, dict(proposal=z, N=10, kde_bw=.01, n_samples_kde=5)),
        "multi": (CMultiNestedSampling, dict(proposal=z, N=12, kde_bw=.01, n_samples_kde=5, converged_radius=.01, inflate_factor=1.1)),
        "hid": (CHiDaiseeSampling, dict(target_ess=.9, n_min=4, tau=.1)),
        "tp": (CTreePyramidSampling, dict(method="simple", resampling="none", kernel="haar", ess_target=.9, n_min=3, parallel_samples=4)),
    }[kind]
    p = dict(p, **k)
    return cls(dict(p, space_min=np.full(dims, float(lo)), space_max=np.full(dims, float(hi)), dims=dims))


out = sys.stdout


def fail(why):
    print("FAIL:", why, file=out)
    out.flush()
    os._exit(1)
