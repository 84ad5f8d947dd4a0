"""ProMP conditioning is exact Gaussian conditioning."""
import numpy as np

from movement_primitives.promp import ProMP, via_points

from .. import kinds
from ..core import Group
from . import promps

PROPERTY = "C16"
TECHNIQUE = ("runtime monitor comparing conditioned ProMPs with conditioning "
             "of the joint Gaussian over the observed trajectory")
RULE = ("Random and learned ProMPs, observations with and without noise at "
        "random times and durations, sequences of observations.")
ASSUMPTIONS = ["covariances that are not numerically singular"]


def joint(promp, T):
    """Mean (n_dims * n_steps, dimension first) and covariance."""
    return promp.mean_trajectory(T).T.ravel(), promp.cov_trajectory(T)


def condition(mean, cov, idx, y, noise):
    """Textbook conditioning of a Gaussian."""
    S = cov[np.ix_(idx, idx)] + noise
    K = np.linalg.solve(S, cov[idx]).T
    return mean + K.dot(y - mean[idx]), cov - K.dot(cov[idx])


def random_or_learned(rng):
    if rng.random() < 0.8:
        return promps.random_promp(rng)
    n_dims = int(rng.integers(1, 3))
    promp = ProMP(n_dims, 6)
    s = np.linspace(0, 1, 30)
    scale = kinds.logu(rng, 0.1, 10)
    Y = promps.demonstrations(rng, 8, 30, n_dims, scale, 0.3)(s)
    promp.imitate(np.array([s] * 8), Y, n_iter=30)
    # conditioning without noise needs some variance everywhere
    cov = promp.weight_cov + 1e-3 * scale ** 2 * np.eye(promp.n_weights)
    promp.from_weight_distribution(promp.weight_mean, cov)
    return promp, np.copy(promp.weight_mean), np.copy(cov), scale


def observation(rng, promp, scale, noise=None):
    y = rng.normal(size=promp.n_dims) * scale
    kind = rng.choice(["none", "full", "diagonal", "small", "large"]) \
        if noise is None else noise
    n = promp.n_dims
    if kind == "none":
        return y, None
    f = {"full": 1.0, "diagonal": 1.0, "small": 1e-4, "large": 1e4}[kind]
    N = promps.spd(rng, n, f * scale ** 2)
    if kind == "diagonal":
        N = np.diag(np.diag(N))
    return y, N


def apply(promp, y, N, t, end):
    kw = {} if N is None else {"y_cov": np.copy(N)}
    return promp.condition_position(np.copy(y), t=t, t_max=end, **kw)


def posterior(case):
    rng = case.rng
    promp, mean, cov, scale = random_or_learned(rng)
    T = promps.times(rng)
    i = int(rng.integers(len(T)))
    if rng.random() < 0.2:
        i = int(rng.choice([0, len(T) - 1]))
    y, N = observation(rng, promp, scale)
    case.note(n_dims=promp.n_dims, n_weights=promp.n_weights_per_dim,
              scale=scale, t=T[i], end=T[-1], y=y, N=N)
    mu, S = joint(promp, T)
    idx = np.arange(promp.n_dims) * len(T) + i
    noise = np.zeros((promp.n_dims,) * 2) if N is None else N
    m, C = condition(mu, S, idx, y, noise)
    c = apply(promp, y, N, T[i], T[-1])
    a, A = joint(c, T)
    s = np.max(np.abs(mu)) + np.max(np.abs(y)) + scale
    v = np.max(np.diag(S))
    case.close(a, m, 1e-6, "posterior mean", scale=s)
    case.close(A, C, 1e-6, "posterior covariance", scale=v)
    case.close(c.var_trajectory(T), np.maximum(
        np.diag(C).reshape(promp.n_dims, -1).T, 0), 1e-6,
        "posterior variance", scale=v)
    if N is None:
        case.close(a[idx], y, 1e-6, "passes through observation", scale=s)
        case.close(A[np.ix_(idx, idx)], 0 * noise, 1e-6,
                   "no variance at observation", scale=v)
    # moves toward the observation, never beyond
    if promp.n_dims == 1:
        before, after = mu[idx][0], a[idx][0]
        lo, hi = min(before, y[0]), max(before, y[0])
        case.check(lo - 1e-6 * s <= after <= hi + 1e-6 * s,
                   "mean does not move toward observation", before=before,
                   after=after, y=y)
    # uncertainty never grows
    w = np.linalg.eigvalsh(S - A)
    case.check(w.min() >= -1e-6 * v, "uncertainty grows", eig=w.min())
    w = np.linalg.eigvalsh(0.5 * (A + A.T))
    case.check(w.min() >= -1e-6 * v, "covariance not positive", eig=w.min())
    W = np.linalg.eigvalsh(cov - c.weight_cov)
    case.check(W.min() >= -1e-6 * np.max(np.diag(cov)),
               "uncertainty of weights grows", eig=W.min())
    # the original is left as it was
    case.equal(promp.weight_mean, mean, "weight mean of original")
    case.equal(promp.weight_cov, cov, "weight covariance of original")
    b, B = joint(promp, T)
    case.equal(b, mu, "mean of original")
    case.equal(B, S, "covariance of original")
    c.weight_mean[:] += 1.0
    c.weight_cov[:] += 1.0
    case.equal(promp.weight_mean, mean, "conditioned ProMP shares data")
    case.equal(promp.weight_cov, cov, "conditioned ProMP shares data (cov)")
    case.check((c.n_dims, c.n_weights_per_dim) == (
        promp.n_dims, promp.n_weights_per_dim), "settings of conditioned")


def own_mean(case):
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng)
    T = promps.times(rng)
    i = int(rng.integers(len(T)))
    _, N = observation(rng, promp, scale)
    case.note(n_dims=promp.n_dims, t=T[i], end=T[-1], N=N)
    M = promp.mean_trajectory(T)
    c = apply(promp, M[i], N, T[i], T[-1])
    case.close(c.mean_trajectory(T), M, 1e-7, "observing the mean keeps it",
               scale=np.max(np.abs(M)) + scale)
    # same observation, other unit of time
    f = kinds.logu(rng, 0.01, 100)
    y, N = observation(rng, promp, scale)
    a = apply(promp, y, N, T[i], T[-1])
    b = apply(promp, y, N, f * T[i], f * T[-1])
    case.close(b.weight_mean, a.weight_mean, 1e-6, "unit of time",
               scale=np.max(np.abs(a.weight_mean)))
    # default duration is one
    a = apply(promp, y, N, T[i] / T[-1], 1.0)
    kw = {} if N is None else {"y_cov": N}
    b = promp.condition_position(y, t=T[i] / T[-1], **kw)
    case.equal(b.weight_mean, a.weight_mean, "default duration")
    b = promp.condition_position(y, **kw)
    a = apply(promp, y, N, 0.0, 1.0)
    case.equal(b.weight_mean, a.weight_mean, "default time")


def order(case):
    rng = case.rng
    promp, mean, cov, scale = random_or_learned(rng)
    n = int(rng.integers(2, min(4, promp.n_weights_per_dim - 1) + 1))
    s = np.sort(rng.permutation(8)[:n]) / 7.0
    end = kinds.logu(rng, 0.1, 10)
    noise = rng.choice(["full", "diagonal", "none"])
    obs = [observation(rng, promp, scale, noise) for _ in range(n)]
    case.note(n_dims=promp.n_dims, n_weights=promp.n_weights_per_dim, s=s,
              end=end, noise=noise)
    T = np.linspace(0, end, 15)
    results = []
    for _ in range(2):
        perm = rng.permutation(n)
        c = promp
        for j in perm:
            c = apply(c, obs[j][0], obs[j][1], s[j] * end, end)
        results.append(joint(c, T))
    # exact posterior of all observations at once
    G = np.r_[s * end, T]
    G = np.r_[G, end] if G.max() < end else G
    mu, S = joint(promp, G)
    idx = np.concatenate([np.arange(promp.n_dims) * len(G) + j
                          for j in range(n)])
    N = np.zeros((len(idx), len(idx)))
    for j in range(n):
        if obs[j][1] is not None:
            k = slice(j * promp.n_dims, (j + 1) * promp.n_dims)
            N[k, k] = obs[j][1]
    m, C = condition(mu, S, idx, np.concatenate([o[0] for o in obs]), N)
    keep = np.concatenate([np.arange(n, n + len(T)) + d * len(G)
                           for d in range(promp.n_dims)])
    m, C = m[keep], C[np.ix_(keep, keep)]
    size = np.max(np.abs(m)) + scale
    v = np.max(np.diag(S))
    tol = 1e-4 if noise == "none" else 1e-6
    case.close(results[0][0], results[1][0], tol, "order matters (mean)",
               scale=size)
    case.close(results[0][1], results[1][1], tol, "order matters (cov)",
               scale=v)
    case.close(results[0][0], m, tol, "joint posterior mean", scale=size)
    case.close(results[0][1], C, tol, "joint posterior covariance", scale=v)
    case.event("observations", n)


def several(case):
    """via_points equals one observation after the other."""
    rng = case.rng
    noisy = rng.random() < 0.5
    promp, mean, cov, scale = promps.random_promp(
        rng, max_dims=1 if noisy else 4)
    n = int(rng.integers(1, min(6, promp.n_weights_per_dim)))
    ts = rng.permutation(8)[:n] / 7.0
    y = rng.normal(size=(n, promp.n_dims)) * scale
    case.note(ts=ts, n_dims=promp.n_dims, noisy=noisy)
    kw = {}
    N = None
    if noisy:
        N = np.abs(rng.normal(size=n)) * scale ** 2 * kinds.logu(
            rng, 1e-3, 10.0)
        kw["y_conditional_cov"] = np.copy(N)
    yc = y[:, 0] if promp.n_dims == 1 else y
    c = via_points(promp, np.copy(ts), np.copy(yc), **kw)
    d = promp
    for j in range(n):
        d = apply(d, y[j], None if N is None else N[j].reshape(1, 1), ts[j],
                  1.0)
    T = np.linspace(0, 1, 12)
    a, A = joint(c, T)
    b, B = joint(d, T)
    case.close(a, b, 1e-7, "via points (mean)",
               scale=np.max(np.abs(b)) + scale)
    case.close(A, B, 1e-7, "via points (covariance)",
               scale=np.max(np.diag(promp.cov_trajectory(T))))
    case.equal(promp.weight_mean, mean, "original mean")
    case.equal(promp.weight_cov, cov, "original covariance")
    if not noisy:
        M = c.trajectory_from_weights(np.r_[ts, 1.0], c.weight_mean)[:n]
        case.close(M, y, 1e-4, "passes through via points",
                   scale=np.max(np.abs(y)) + scale)


GROUPS = [
    Group("posterior", posterior, 500, 5000),
    Group("own_mean", own_mean, 200, 2000),
    Group("order", order, 300, 3000),
    Group("several", several, 250, 2500),
]
