"""Propagation of demonstrations to a distribution over states."""
import contextlib
import io
import os
import tempfile

import numpy as np

from movement_primitives.dmp import DualCartesianDMP
from movement_primitives.dmp_to_state_space_distribution import (
    propagate_weight_distribution_to_state_space)

from .. import kinds
from ..core import Group

PROPERTY = "C27"
TECHNIQUE = ("runtime reference monitor: every demonstration is learned and "
             "executed on its own and the statistics of these executions are "
             "compared with the propagated distribution; call counters "
             "observe the use of the cache")
RULE = ("Random sets of two-arm demonstrations with random spread, numbers "
        "of weights, step sizes and sigma point parameters. Positions depend "
        "linearly on the parameters, so that mean and covariance have to "
        "agree with the executions exactly, orientations approximately.")
ASSUMPTIONS = [
    "demonstrations start at time zero and have steps of at least 5 ms",
    "demonstrated orientations differ only a little from each other"]
POS, VEL = kinds.pos_dims({"kind": "dual"})
ORI = kinds.ori_dims({"kind": "dual"})


def dataset(rng, n, spread, angle=0.0, tau=None):
    """Demonstrations that vary around a common movement."""
    p = {"kind": "dual", "n_pos": 14, "n_vel": 12, "n_dims": 14, "scale": 1.0,
         "tau": 1.0}
    tau = kinds.logu(rng, 0.7, 2.5) if tau is None else tau
    scale = kinds.logu(rng, 0.2, 5.0)
    p["scale"] = scale
    start = kinds.random_state(rng, p, scale)
    goal = kinds.random_state(rng, p, scale)
    for s, _ in ORI:
        goal[s] = kinds.rot_by(rng, start[s], rng.uniform(0.0, 1.2))
    shape = rng.integers(1 << 30)
    demos = []
    for _ in range(n):
        s, g = np.copy(start), np.copy(goal)
        s[POS] += rng.normal(size=6) * scale * spread
        g[POS] += rng.normal(size=6) * scale * spread
        for q, _ in ORI:
            s[q] = kinds.rot_by(rng, s[q], angle * rng.random())
            g[q] = kinds.rot_by(rng, g[q], angle * rng.random())
        t = tau * rng.uniform(0.85, 1.15)
        k = int(rng.integers(40, 80))
        T, Y = kinds.demonstration(
            np.random.default_rng(shape), p, n=k, tau=t, start=s, goal=g)
        if rng.random() < 0.5:  # positions also differ in their shape
            Y[:, POS] = kinds.demonstration(
                rng, p, n=k, tau=t, start=s, goal=g)[1][:, POS]
        # quaternions of one set have to belong together
        for q, _ in ORI:
            sign = np.sign(Y[:, q] @ start[q])
            if abs(Y[0, q] @ start[q]) > 0.1:
                Y[:, q] *= sign[0]
        demos.append((T, Y))
    return demos, scale, tau


def settings(rng, tau):
    steps = int(rng.integers(8, 16))
    dt = tau / steps
    return dict(
        n_weights_per_dim=int(rng.integers(2, 11)),
        alpha=float(rng.choice([1e-3, 1e-2, 0.1, 0.5, 1.0])),
        kappa=float(rng.choice([0.0, 1.0, 10.0])),
        dt=dt, int_dt=dt / int(rng.integers(3, 10)))


def executions(demos, kw):
    """All demonstrations, learned and repeated one by one."""
    tau = float(np.mean([T[-1] for T, _ in demos]))
    out = []
    for T, Y in demos:
        d = DualCartesianDMP(
            execution_time=T[-1], dt=float(np.mean(np.diff(T))),
            n_weights_per_dim=kw["n_weights_per_dim"], int_dt=kw["int_dt"])
        d.imitate(np.copy(T), np.copy(Y))
        e = DualCartesianDMP(
            execution_time=tau, dt=kw["dt"],
            n_weights_per_dim=kw["n_weights_per_dim"], int_dt=kw["int_dt"])
        e.configure(start_y=Y[0], goal_y=Y[-1])
        e.set_weights(d.get_weights())
        out.append(e.open_loop(run_t=tau)[1])
    return np.array(out)


def copies(demos):
    return [(np.copy(T), np.copy(Y)) for T, Y in demos]


def run(demos, kw, **more):
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        return propagate_weight_distribution_to_state_space(
            copies(demos), **kw, **more)


def distribution(case):
    rng = case.rng
    n = int(rng.choice([2, 3, 5, 8, 15]))
    spread = kinds.logu(rng, 0.01, 0.4)
    angle = 0.0 if rng.random() < 0.5 else rng.uniform(0.0, 0.05)
    demos, scale, tau = dataset(rng, n, spread, angle)
    kw = settings(rng, tau)
    case.note(n=n, spread=spread, angle=angle, scale=scale, tau=tau, **kw)
    mvn = run(demos, kw, verbose=int(rng.random() < 0.2))
    R = executions(demos, kw)
    case.event("demonstrations", n)
    k = R.shape[1]
    mean, cov = np.asarray(mvn.mean), np.asarray(mvn.covariance)
    case.check(mean.shape == (14 * k,), "size of mean", shape=mean.shape,
               steps=k)
    case.check(cov.shape == (14 * k, 14 * k), "size of covariance")
    M = mean.reshape(k, 14)
    case.close(M[:, POS], R.mean(axis=0)[:, POS], 1e-6, "mean of positions",
               scale=scale)
    C = np.cov(R.reshape(n, -1).T)
    idx = np.arange(14 * k).reshape(k, 14)
    ip = idx[:, POS].ravel()
    s = np.max(np.diag(C)[ip])
    case.close(cov[np.ix_(ip, ip)], C[np.ix_(ip, ip)], 1e-5,
               "covariance of positions", scale=s + 1e-6 * scale ** 2)
    case.close(cov, cov.T, 1e-9, "symmetry of covariance",
               scale=np.max(np.abs(cov)))
    w = np.linalg.eigvalsh(0.5 * (cov + cov.T))
    case.check(w[0] > -1e-3 * w[-1] - 1e-9, "covariance is positive",
               smallest=w[0], largest=w[-1])
    # orientations: to first order
    for q, _ in ORI:
        case.close(M[:, q], R.mean(axis=0)[:, q], 0.01,
                   "mean of orientations", scale=1.0)
        iq = idx[:, q].ravel()
        sd = np.sqrt(np.maximum(np.diag(C)[iq], 0.0))
        got = np.sqrt(np.maximum(np.diag(cov)[iq], 0.0))
        case.close(got, sd, 0.15, "spread of orientations",
                   scale=max(np.max(sd), 0.02))
    # with enough weights the demonstrations themselves are reproduced
    if kw["n_weights_per_dim"] >= 7 and kw["int_dt"] < 0.02 * tau:
        A = np.array([[np.interp(np.linspace(0, 1, k), T / T[-1], Y[:, j])
                       for j in POS] for T, Y in demos]).mean(axis=0).T
        case.close(M[:, POS], A, 0.35, "mean and demonstrations",
                   scale=max(scale, np.max(np.ptp(A, axis=0))))
    sample = np.asarray(mvn.sample(3))
    case.check(sample.shape == (3, 14 * k), "samples")


def order(case):
    """Same distribution again, for another order, after other calls."""
    rng = case.rng
    demos, scale, tau = dataset(rng, 4, 0.1, 0.02)
    kw = settings(rng, tau)
    case.note(scale=scale, tau=tau, **kw)
    a = run(demos, kw)
    np.random.seed(int(rng.integers(1000)))
    b = run(demos, kw)
    case.equal(a.mean, b.mean, "mean of second call")
    case.equal(a.covariance, b.covariance, "covariance of second call")
    i = rng.permutation(4)
    c = run([demos[j] for j in i], kw)
    case.close(a.mean, c.mean, 1e-5, "mean for another order", scale=scale)
    case.close(a.covariance, c.covariance, 1e-4,
               "covariance for another order",
               scale=np.max(np.abs(a.covariance)))
    case.equal(a.sample(2), b.sample(2), "samples of both calls")


@contextlib.contextmanager
def counted(name):
    """Counts calls of a method of the two-arm primitive."""
    original = getattr(DualCartesianDMP, name)
    calls = [0]

    def wrapper(self, *args, **kw):
        calls[0] += 1
        return original(self, *args, **kw)

    setattr(DualCartesianDMP, name, wrapper)
    try:
        yield calls
    finally:
        setattr(DualCartesianDMP, name, original)


def cache(case):
    rng = case.rng
    demos, scale, tau = dataset(rng, 3, 0.1, 0.02)
    kw = settings(rng, tau)
    case.note(scale=scale, tau=tau, **kw)
    plain = run(demos, kw)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "cache.txt")
        with counted("open_loop") as n1:
            first = run(demos, kw, cache_filename=f)
        case.check(os.path.exists(f), "cache file is written")
        with open(f, "rb") as h:
            content = h.read()
        with counted("open_loop") as n2, counted("imitate") as n3:
            second = run(demos, kw, cache_filename=f)
        with open(f, "rb") as h:
            case.check(h.read() == content, "cache file is kept")
        case.event("executions", n1[0])
        case.check(n1[0] > 0, "executions without cache")
        case.check(n2[0] == 0 and n3[0] == 0,
                   "nothing is computed with cache", executions=n2[0],
                   imitations=n3[0])
        case.check(sorted(os.listdir(d)) == ["cache.txt"], "no other files")
    for x, name in ((first, "first"), (second, "second")):
        case.close(x.mean, plain.mean, 1e-6, "mean of %s call" % name,
                   scale=scale)
        case.close(x.covariance, plain.covariance, 1e-5,
                   "covariance of %s call" % name,
                   scale=np.max(np.abs(plain.covariance)))


def single_spread(case):
    """Only one quantity varies, which has to show up in the result."""
    rng = case.rng
    demos, scale, tau = dataset(rng, 1, 0.0)
    kw = settings(rng, tau)
    T, Y = demos[0]
    dim = POS[rng.integers(6)]
    n = int(rng.integers(2, 6))
    offsets = rng.normal(size=n) * scale * 0.2
    D = []
    for o in offsets:
        Z = np.copy(Y)
        Z[:, dim] += o
        D.append((T, Z))
    case.note(dim=dim, n=n, scale=scale, tau=tau, **kw)
    mvn = run(D, kw)
    k = len(mvn.mean) // 14
    sd = np.sqrt(np.maximum(np.diag(mvn.covariance), 0)).reshape(k, 14)
    others = [i for i in POS if i != dim]
    s = np.std(offsets, ddof=1)
    # the whole movement is shifted
    case.close(sd[:, dim], np.full(k, s), 1e-3, "spread of shifted movements", scale=s)
    case.check(np.max(sd[:, others]) < 1e-2 * s + 1e-5 * scale,
               "no spread in other dimensions", got=np.max(sd[:, others]))


GROUPS = [
    Group("distribution", distribution, 32, 240),
    Group("order", order, 8, 60),
    Group("cache", cache, 8, 60),
    Group("single_spread", single_spread, 16, 120),
]
