"""ProMP outputs are consistent views of one distribution."""
import numpy as np

from movement_primitives.promp import ProMP

from .. import kinds
from ..core import Group
from . import promps

PROPERTY = "C17"
TECHNIQUE = ("runtime monitor of all ProMP outputs against the linear image "
             "of its weight distribution, and of samples against moments")
RULE = ("Random ProMPs (dimensions, basis functions, weight distributions), "
        "times in any unit and spacing, samples, weight fits.")
ASSUMPTIONS = ["times start at zero"]


def basis(promp, T):
    """Linear map from weights to trajectory, observed column by column.

    Rows are ordered by dimension, then time (as in the covariances).
    """
    E = np.eye(promp.n_weights)
    return np.array([promp.trajectory_from_weights(T, e).T.ravel()
                     for e in E]).T


def velocity_basis(promp, T):
    p = ProMP(promp.n_dims, promp.n_weights_per_dim)
    out = []
    for e in np.eye(promp.n_weights):
        p.from_weight_distribution(e, np.eye(promp.n_weights))
        out.append(p.mean_velocities(T).T.ravel())
    return np.array(out).T


def moments(case):
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng)
    T = promps.times(rng)
    n, d = len(T), promp.n_dims
    case.note(n_dims=d, n_weights=promp.n_weights_per_dim, T=T, scale=scale)
    P = basis(promp, T)
    M, C, V = promp.mean_trajectory(T), promp.cov_trajectory(T), \
        promp.var_trajectory(T)
    case.check(M.shape == (n, d) and V.shape == (n, d)
               and C.shape == (n * d, n * d), "shapes")
    s, v = np.max(np.abs(mean)) + scale, np.max(np.diag(cov))
    case.close(M.T.ravel(), P.dot(mean), 1e-9, "mean", scale=s)
    case.close(C, P.dot(cov).dot(P.T), 1e-9, "covariance", scale=v)
    case.close(V.T.ravel(), np.diag(C), 1e-9, "variance is the diagonal",
               scale=v)
    case.close(C, C.T, 1e-9, "covariance symmetric", scale=v)
    w = np.linalg.eigvalsh(0.5 * (C + C.T))
    case.check(w.min() >= -1e-8 * v * n, "covariance positive", eig=w.min())
    case.check(np.all(V >= 0.0), "variance negative")
    # every dimension belongs to its own block of weights
    k = promp.n_weights_per_dim
    for i in range(d):
        for j in range(d):
            block = P[i * n:(i + 1) * n, j * k:(j + 1) * k]
            if i == j:
                case.close(block, P[:n, :k], 1e-12, "same basis for all "
                           "dimensions", scale=1.0)
            else:
                case.equal(block, 0 * block, "dimensions mixed")
    # velocities
    Pd = velocity_basis(promp, T)
    Md, Cd, Vd = promp.mean_velocities(T), promp.cov_velocities(T), \
        promp.var_velocities(T)
    case.check(Md.shape == (n, d) and Vd.shape == (n, d)
               and Cd.shape == (n * d, n * d), "shapes of velocities")
    vs, vv = s / T[-1] * 10, v / T[-1] ** 2 * 100
    case.close(Md.T.ravel(), Pd.dot(mean), 1e-9, "mean velocity", scale=vs)
    case.close(Cd, Pd.dot(cov).dot(Pd.T), 1e-9, "velocity covariance",
               scale=vv)
    case.close(Vd.T.ravel(), np.diag(Cd), 1e-9, "velocity variance", scale=vv)
    case.close(Cd, Cd.T, 1e-9, "velocity covariance symmetric", scale=vv)
    case.event("moments_compared", 10)


def derivative(case):
    """Velocities are time derivatives of positions."""
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng)
    end = kinds.logu(rng, 0.02, 100.0)
    h = 1e-5 * end
    t = np.sort(rng.uniform(0.01, 0.98, size=int(rng.integers(2, 20)))) * end
    T = np.r_[t, end]
    case.note(n_dims=promp.n_dims, n_weights=promp.n_weights_per_dim,
              end=end, t=t)
    n = len(t)
    up = promp.mean_trajectory(np.r_[t + h, end])[:n]
    down = promp.mean_trajectory(np.r_[t - h, end])[:n]
    V = promp.mean_velocities(T)[:n]
    num = (up - down) / (2 * h)
    case.close(V, num, 1e-5, "velocity is the derivative",
               scale=np.max(np.abs(num)) + scale / end)
    P = (basis(promp, np.r_[t + h, end]) - basis(promp, np.r_[t - h, end])) \
        / (2 * h)
    C = P.dot(cov).dot(P.T)
    rows = np.concatenate([np.arange(n) + i * (n + 1)
                           for i in range(promp.n_dims)])
    D = promp.cov_velocities(T)[np.ix_(rows, rows)]
    case.close(D, C[np.ix_(rows, rows)], 1e-4,
               "velocity covariance is that of the derivative",
               scale=np.max(np.diag(C)))
    case.close(promp.var_velocities(T).T.ravel()[rows],
               np.diag(C)[rows], 1e-4, "velocity variance is that of the "
               "derivative", scale=np.max(np.diag(C)))


def units(case):
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng)
    T = promps.times(rng)
    f = kinds.logu(rng, 1e-3, 1e3)
    case.note(n_dims=promp.n_dims, T=T, f=f)
    s, v = np.max(np.abs(mean)) + scale, np.max(np.diag(cov))
    case.close(promp.mean_trajectory(f * T), promp.mean_trajectory(T), 1e-8,
               "mean in other unit of time", scale=s)
    case.close(promp.cov_trajectory(f * T), promp.cov_trajectory(T), 1e-8,
               "covariance in other unit of time", scale=v)
    case.close(f * promp.mean_velocities(f * T), promp.mean_velocities(T),
               1e-8, "velocity in other unit of time", scale=100 * s / T[-1])
    case.close(f ** 2 * promp.var_velocities(f * T), promp.var_velocities(T),
               1e-8, "velocity variance in other unit of time",
               scale=1e4 * v / T[-1] ** 2)
    # values at a time do not depend on the other times (end is the same)
    keep = np.r_[np.where(rng.random(len(T) - 1) < 0.5)[0], len(T) - 1]
    case.close(promp.mean_trajectory(T[keep]), promp.mean_trajectory(T)[keep],
               1e-9, "subset of times", scale=s)
    case.close(promp.var_trajectory(T[keep]), promp.var_trajectory(T)[keep],
               1e-9, "variance at subset of times", scale=v)
    # another grid with the same size and end, asked of the same object
    other = T[-1] * (T / T[-1]) ** rng.uniform(1.1, 2.0)
    fresh = ProMP(promp.n_dims, promp.n_weights_per_dim)
    fresh.from_weight_distribution(mean, cov)
    for name in ("mean_trajectory", "var_trajectory", "cov_trajectory",
                 "mean_velocities", "var_velocities", "cov_velocities"):
        want = getattr(fresh, name)(other)
        case.close(getattr(promp, name)(other), want, 1e-12,
                   "%s depends on earlier times" % name,
                   scale=1e-300 + np.max(np.abs(want)))
    # other unit of positions
    u = kinds.logu(rng, 1e-6, 1e6)
    fresh.from_weight_distribution(u * mean, u ** 2 * cov)
    for name in ("mean_trajectory", "var_trajectory", "cov_trajectory",
                 "mean_velocities", "var_velocities", "cov_velocities"):
        want = getattr(promp, name)(T)
        g = u if name.startswith("mean") else u ** 2
        case.close(getattr(fresh, name)(T) / g, want, 1e-9,
                   "%s in other unit" % name,
                   scale=1e-300 + np.max(np.abs(want)))
    # many times
    many = np.sort(np.r_[T, rng.uniform(
        0.0, T[-1], size=int(rng.integers(100, 1500)))])
    at = np.searchsorted(many, T)
    case.close(promp.mean_trajectory(many)[at], promp.mean_trajectory(T),
               1e-9, "mean among many times", scale=s)
    case.close(promp.mean_velocities(many)[at], promp.mean_velocities(T),
               1e-9, "velocity among many times", scale=100 * s / T[-1])
    if case.index % 4 == 0 and promp.n_dims < 3:
        case.close(promp.var_velocities(many)[at], promp.var_velocities(T),
                   1e-9, "velocity variance among many times",
                   scale=1e4 * v / T[-1] ** 2)
        case.close(promp.var_trajectory(many)[at], promp.var_trajectory(T),
                   1e-9, "variance among many times", scale=v)


def fit(case):
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng)
    n = max(int(rng.integers(20, 80)), 3 * promp.n_weights_per_dim)
    T = np.linspace(0, kinds.logu(rng, 0.05, 50.0), n)
    w = rng.normal(size=promp.n_weights) * scale
    Y = promp.trajectory_from_weights(T, w)
    case.note(n_dims=promp.n_dims, n_weights=promp.n_weights_per_dim, n=n,
              end=T[-1])
    Z = np.copy(Y)
    v = promp.weights(T, Z)
    case.equal(Z, Y, "trajectory changed")
    case.check(np.shape(v) == (promp.n_weights,), "shape of weights")
    s = np.max(np.abs(w))
    case.close(promp.trajectory_from_weights(T, v), Y, 1e-5,
               "fit and expand returns the trajectory", scale=s)
    case.close(v, w, 1e-3, "fit returns the weights", scale=s)
    case.equal(promp.weight_mean, mean, "fitting changes the distribution")
    f = kinds.logu(rng, 1e-2, 1e2)
    u = promp.weights(f * T, Y)
    case.close(promp.trajectory_from_weights(f * T, u), Y, 1e-5,
               "fit in other unit of time", scale=s)
    # smooth functions, constants
    c = rng.normal(size=promp.n_dims) * scale
    Y = np.tile(c, (n, 1))
    u = promp.weights(T, Y)
    case.close(promp.trajectory_from_weights(T, u), Y, 1e-5, "constants",
               scale=np.max(np.abs(c)))
    a, b = rng.normal(size=(2, promp.n_dims))
    Y1 = np.outer(np.sin(2 * T / T[-1]), a)
    if promp.n_weights_per_dim >= 8:
        u = promp.weights(T, Y1)
        case.close(promp.trajectory_from_weights(T, u), Y1, 0.06,
                   "smooth trajectory", scale=np.max(np.abs(a)))
    # regularised least squares
    if promp.n_weights <= 60:
        basis = np.array([promp.trajectory_from_weights(T, e).T.ravel()
                          for e in np.eye(promp.n_weights)]).T
        lmbda = kinds.logu(rng, 1e-6, 1e3)
        Y2 = Y1 + rng.normal(size=Y1.shape)
        expected = np.linalg.solve(
            basis.T.dot(basis) + lmbda * np.eye(promp.n_weights),
            basis.T.dot(Y2.T.ravel()))
        case.close(promp.weights(T, Y2, lmbda=lmbda), expected, 1e-5,
                   "regularisation", scale=max(np.max(np.abs(expected)), 1e-3))
        # also with few, unevenly distributed samples
        T = promps.times(rng)
        B = np.array([promp.trajectory_from_weights(T, e).T.ravel()
                      for e in np.eye(promp.n_weights)]).T
        lmbda = kinds.logu(rng, 1e-7, 10.0)
        Y3 = rng.normal(size=(len(T), promp.n_dims)) * scale
        y = Y3.T.ravel()
        u = promp.weights(T, Y3, lmbda=lmbda)
        case.close(B.T.dot(B.dot(u)) + lmbda * u, B.T.dot(y), 1e-8,
                   "normal equations", scale=np.linalg.norm(y) + 1e-300)


def samples(case):
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng, max_dims=3)
    T = promps.times(rng, n=int(rng.integers(3, 9)))
    n = 3000
    seed = int(rng.integers(2 ** 31))
    case.note(n_dims=promp.n_dims, n_weights=promp.n_weights_per_dim, T=T,
              seed=seed)
    np.random.seed(1)
    before = np.random.get_state()[1].tolist()
    X = promp.sample_trajectories(T, n, np.random.RandomState(seed))
    after = np.random.get_state()[1].tolist()
    case.check(before == after, "global random state used")
    np.random.seed(2)
    Y = promp.sample_trajectories(T, n, np.random.RandomState(seed))
    case.equal(Y, X, "samples depend on the random state only")
    case.check(X.shape == (n, len(T), promp.n_dims), "shape of samples",
               shape=X.shape)
    Z = promp.sample_trajectories(T, 3, np.random.RandomState(seed + 1))
    case.check(Z.shape == (3, len(T), promp.n_dims)
               and np.any(Z != X[:3]), "other random state")
    # successive draws from one state differ
    r = np.random.RandomState(seed)
    a, b = promp.sample_trajectories(T, 2, r), promp.sample_trajectories(
        T, 2, r)
    case.check(np.any(a != b), "random state does not advance")
    M, C = promp.mean_trajectory(T).T.ravel(), promp.cov_trajectory(T)
    S = X.transpose(0, 2, 1).reshape(n, -1)
    sd = np.sqrt(np.diag(C))
    z = np.abs(S.mean(axis=0) - M) / (sd / np.sqrt(n) + 1e-9 * scale)
    case.check(z.max() < 7.0, "mean of samples", z=z.max())
    E = np.cov(S.T)
    se = np.sqrt((np.outer(np.diag(C), np.diag(C)) + C ** 2) / n)
    z = np.abs(E - C) / (se + 1e-9 * scale ** 2)
    case.check(z.max() < 8.0, "covariance of samples", z=z.max())
    case.event("samples", n)
    # little and no uncertainty
    g = float(rng.choice([1e-3, 1e-5, 1e-7]))
    tight = ProMP(promp.n_dims, promp.n_weights_per_dim)
    tight.from_weight_distribution(mean, g ** 2 * cov)
    X = tight.sample_trajectories(T, 400, np.random.RandomState(seed))
    S = X.transpose(0, 2, 1).reshape(400, -1)
    z = np.abs(np.var(S, axis=0) - g ** 2 * np.diag(C)) / (
        g ** 2 * np.diag(C) * np.sqrt(2.0 / 400) + 1e-6 * (g * scale) ** 2)
    case.check(z.max() < 9.0, "variance of samples with little uncertainty",
               z=z.max(), g=g)
    tight.from_weight_distribution(mean, 0.0 * cov)
    X = tight.sample_trajectories(T, 3, np.random.RandomState(seed))
    case.close(X, np.array([promp.mean_trajectory(T)] * 3), 1e-9,
               "samples without uncertainty", scale=scale)


def single_samples(case):
    """Every sample of a call has the spread of the distribution."""
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng, max_dims=2)
    T = promps.times(rng, n=3)
    n, k = int(rng.integers(1, 5)), 300
    seed = int(rng.integers(2 ** 31))
    case.note(n_dims=promp.n_dims, n_weights=promp.n_weights_per_dim, n=n,
              seed=seed)
    r = np.random.RandomState(seed)
    X = np.array([promp.sample_trajectories(T, n, r) for _ in range(k)])
    sd = np.sqrt(promp.var_trajectory(T)) + 1e-9 * scale
    Z = (X - promp.mean_trajectory(T)) / sd
    case.seen(Z)
    case.event("samples", n * k)
    v = np.mean(Z ** 2, axis=0)
    case.check(np.all(np.abs(v - 1.0) < 8.0 * np.sqrt(2.0 / k)),
               "spread of each sample", v=v)
    case.check(np.all(np.abs(np.mean(Z, axis=0)) < 7.0 / np.sqrt(k)),
               "mean of each sample")
    for i in range(1, n):  # samples of one call are independent
        c = np.mean(Z[:, i] * Z[:, 0], axis=0)
        case.check(np.all(np.abs(c) < 7.0 / np.sqrt(k)),
                   "samples are independent", c=c)


GROUPS = [
    Group("moments", moments, 250, 2500),
    Group("derivative", derivative, 250, 2500),
    Group("units", units, 250, 2500),
    Group("fit", fit, 200, 2000),
    Group("samples", samples, 100, 1000),
    Group("single_samples", single_samples, 30, 300),
]
