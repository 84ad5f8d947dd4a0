"""Random ProMPs and demonstrations for them."""
import numpy as np

from movement_primitives.promp import ProMP

from .. import kinds


def spd(rng, n, scale=1.0, floor=0.05):
    A = rng.normal(size=(n, n)) / np.sqrt(n)
    return scale * (A.dot(A.T) + floor * np.eye(n))


def distribution(rng, n_dims, n_weights, floor=0.05):
    n = n_dims * n_weights
    scale = kinds.logu(rng, 0.03, 30.0)
    return rng.normal(size=n) * scale, spd(rng, n, scale ** 2, floor), scale


def random_promp(rng, max_dims=4, floor=0.05):
    n_dims = int(rng.integers(1, max_dims + 1))
    n_weights = int(rng.integers(4, 13))
    r = rng.random()
    if r < 0.05:
        n_weights = int(rng.integers(3, 5))
    elif r < 0.12:
        n_weights = int(rng.integers(13, 41))
    promp = ProMP(n_dims, n_weights)
    mean, cov, scale = distribution(rng, n_dims, n_weights, floor)
    if rng.random() < 0.1:
        cov = np.eye(len(mean)) * scale ** 2
    out = promp.from_weight_distribution(np.copy(mean), np.copy(cov))
    assert out is promp, "from_weight_distribution returns the object"
    return promp, mean, cov, scale


def times(rng, n=None, end=None):
    """Increasing times from 0 to the end."""
    n = int(rng.integers(5, 40)) if n is None else n
    end = kinds.logu(rng, 0.05, 50.0) if end is None else end
    if rng.random() < 0.5:
        return np.linspace(0.0, end, n)
    t = np.sort(rng.uniform(0, 1, size=n))
    t[0], t[-1] = 0.0, 1.0
    return t * end


def demonstrations(rng, n_demos, n, n_dims, scale, spread):
    """Smooth demonstrations, (n_demos, n, n_dims), as functions of [0, 1]."""
    base = rng.normal(size=(n_dims, 4))
    dev = rng.normal(size=(n_demos, n_dims, 4)) * spread

    def evaluate(s):
        B = np.stack((np.ones_like(s), s, np.sin(np.pi * s),
                      np.cos(2 * np.pi * s)))
        return scale * np.einsum("idk,kn->ind", base + dev, B)
    return evaluate
