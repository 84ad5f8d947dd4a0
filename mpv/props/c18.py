"""Learned ProMPs describe their demonstrations."""
import numpy as np

from movement_primitives.promp import ProMP

from .. import kinds
from ..core import Group, silence
from . import promps

PROPERTY = "C18"
TECHNIQUE = ("runtime monitor comparing learned distributions with the "
             "statistics of their demonstrations, metamorphic relations")
RULE = ("Random smooth demonstrations, any number, sampling, dimension, "
        "scale and spread; permutations of demonstrations and dimensions, "
        "other units of time.")
ASSUMPTIONS = ["enough basis functions to represent the demonstrations",
               "times start at zero"]


def problem(rng):
    n_demos = int(rng.choice([2, 3, 5, 10, 20, 40]))
    n = int(rng.choice([30, 50, 80, 150]))
    n_dims = int(rng.choice([1, 2, 3, 5]))
    k = int(rng.choice([10, 13]))
    scale = kinds.logu(rng, 0.1, 10.0)
    spread = float(rng.choice([0.1, 0.2, 0.5]))
    f = promps.demonstrations(rng, n_demos, n, n_dims, scale, spread)
    info = dict(n_demos=n_demos, n=n, n_dims=n_dims, n_weights=k, scale=scale,
                spread=spread)
    return f, info


def learn(info, T, Y, **kw):
    promp = ProMP(info["n_dims"], info["n_weights"])
    promp.imitate(np.array([T] * len(Y)), np.copy(Y), **kw)
    return promp


def describes(case):
    rng = case.rng
    f, info = problem(rng)
    s = np.linspace(0, 1, info["n"])
    T = s * kinds.logu(rng, 0.1, 20.0)
    Y = f(s)
    span = rng.random() < 0.5
    if span:  # in the span of the basis functions
        p = ProMP(info["n_dims"], info["n_weights"])
        Y = np.array([p.trajectory_from_weights(T, p.weights(T, y))
                      for y in Y])
    case.note(end=T[-1], **info)
    promp = learn(info, T, Y)
    M, S = Y.mean(axis=0), Y.std(axis=0)
    m, sd = promp.mean_trajectory(T), np.sqrt(promp.var_trajectory(T))
    size = np.max(np.abs(Y))
    typical = max(np.sqrt(np.mean(S ** 2)),
                  0.4 * info["spread"] * info["scale"])
    case.close(m, M, 0.015 if span else 0.08, "mean is the average",
               scale=size)
    case.close(sd, S, 0.25, "spread is the variability", scale=typical)
    dev = np.abs(Y - m)
    case.check(np.all(dev <= 5 * sd + 0.08 * size),
               "demonstration far outside of the distribution",
               worst=np.max(dev / (sd + 0.01 * size)))
    C = promp.weight_cov
    case.check(np.all(np.isfinite(C)), "weight covariance finite")
    case.close(C, C.T, 1e-9, "weight covariance symmetric")
    w = np.linalg.eigvalsh(0.5 * (C + C.T))
    case.check(w.min() >= -1e-9 * w.max(), "weight covariance positive",
               eig=w.min())
    case.event("demonstrations", len(Y))
    # covariance between times and dimensions
    if len(Y) >= 5:
        k = rng.permutation(info["n"])[:6]
        X = Y[:, k].transpose(0, 2, 1).reshape(len(Y), -1)
        E = np.cov(X.T, bias=True)
        idx = np.concatenate([k + d * info["n"]
                              for d in range(info["n_dims"])])
        case.close(promp.cov_trajectory(T)[np.ix_(idx, idx)], E, 0.25,
                   "covariance is that of the demonstrations",
                   scale=typical ** 2)


def invariances(case):
    rng = case.rng
    f, info = problem(rng)
    s = np.linspace(0, 1, info["n"])
    end = kinds.logu(rng, 0.1, 20.0)
    T, Y = s * end, f(s)
    case.note(end=end, **info)
    a = learn(info, T, Y)
    size = np.max(np.abs(Y))
    m, v = a.mean_trajectory(T), a.var_trajectory(T)
    # two demonstrations may be alike by chance
    vs = max(np.mean(np.var(Y, axis=0)),
             0.2 * (info["spread"] * info["scale"]) ** 2)

    if rng.random() < 0.2:
        with silence():
            b = learn(info, T, Y, verbose=1)
        case.equal(b.mean_trajectory(T), m, "verbosity changes the mean")
        case.equal(b.var_trajectory(T), v, "verbosity changes the variance")

    def same(b, what, tol, dims=slice(None), t=T):
        case.close(b.mean_trajectory(t), m[:, dims], tol, "mean: " + what,
                   scale=size)
        case.close(b.var_trajectory(t), v[:, dims], 5 * tol,
                   "variance: " + what, scale=vs)

    perm = rng.permutation(len(Y))
    same(learn(info, T, Y[perm]), "order of demonstrations", 1e-4)
    g = kinds.logu(rng, 1e-2, 1e2)
    same(learn(info, g * T, Y), "unit of time", 1e-4, t=g * T)
    dims = rng.permutation(info["n_dims"])
    same(learn(info, T, Y[:, :, dims]), "order of dimensions", 2e-3, dims)
    s2 = np.linspace(0, 1, 2 * info["n"] - 1)
    same(learn(info, s2 * end, f(s2)), "sampling density", 0.05)
    b = learn(info, T, Y)
    case.equal(b.weight_mean, a.weight_mean, "learning is deterministic")
    case.equal(b.weight_cov, a.weight_cov, "deterministic covariance")
    if case.index % 3 == 0:  # whatever was learned before
        b.imitate(np.array([T] * len(Y)), 3.0 * Y[::-1] + size)
        b.imitate(np.array([T] * len(Y)), np.copy(Y))
        same(b, "earlier learning", 1e-4)


def lengths(case):
    """Demonstrations of different lengths and durations."""
    rng = case.rng
    f, info = problem(rng)
    grids = [np.linspace(0, 1, int(rng.integers(30, 70)))
             for _ in range(info["n_demos"])]
    if rng.random() < 0.5:  # same length, but other times
        s = np.linspace(0, 1, info["n"])
        grids = [s + rng.uniform(-0.5, 0.5) * s * (1.0 - s) for _ in grids]
    ends = [kinds.logu(rng, 0.5, 2.0) for _ in grids]
    Y = [f(s)[i] for i, s in enumerate(grids)]
    case.note(ends=ends, **info)
    promp = ProMP(info["n_dims"], info["n_weights"])
    Ts = [s * e for s, e in zip(grids, ends)]
    before = [np.copy(y) for y in Y]
    promp.imitate(Ts, Y)
    for a, b in zip(Y, before):
        case.equal(a, b, "demonstration changed")
    other = ProMP(info["n_dims"], info["n_weights"])
    perm = rng.permutation(len(Y))
    other.imitate([Ts[i] for i in perm], [Y[i] for i in perm])
    s = np.linspace(0, 1, 50)
    V = promp.var_trajectory(s)
    case.close(other.mean_trajectory(s), promp.mean_trajectory(s), 1e-4,
               "mean: order of demonstrations")
    case.close(other.var_trajectory(s), V, 5e-4,
               "variance: order of demonstrations")
    M, S = f(s).mean(axis=0), f(s).std(axis=0)
    size = np.max(np.abs(f(s)))
    case.close(promp.mean_trajectory(s), M, 0.2, "mean is the average",
               scale=size)
    # two demonstrations may be alike by chance
    case.close(np.sqrt(promp.var_trajectory(s)), S, 0.35,
               "spread is the variability",
               scale=max(np.sqrt(np.mean(S ** 2)),
                         0.4 * info["spread"] * info["scale"]))


GROUPS = [
    Group("describes", describes, 160, 1600),
    Group("invariances", invariances, 60, 600),
    Group("lengths", lengths, 60, 600),
]
