"""Data sets."""
import contextlib
import os
import tempfile

import numpy as np
import scipy.io

from movement_primitives.data import (
    generate_1d_trajectory_distribution, load_lasa)

from .. import kinds
from ..core import Group

PROPERTY = "C30"
TECHNIQUE = ("runtime reference monitor: statistics of generated "
             "trajectories, recordings written to a scratch directory and "
             "read back")
RULE = ("Random numbers of demonstrations and steps, offsets, noise levels "
        "and seeds; recordings with random content in the format of the "
        "original data set below a home directory made for the case.")
ASSUMPTIONS = [
    "the data set has already been downloaded (there is no network)",
    "times of recordings: only shape, order and equality are documented"]


def settings(rng):
    return dict(
        initial_offset_range=float(rng.choice([0.0, 0.3, 3.0, 10.0])),
        final_offset_range=float(rng.choice([0.0, 0.1, 2.0])),
        noise_per_step_range=float(rng.choice([0.0, 1.0, 20.0, 100.0])))


def noise_free(case):
    rng = case.rng
    n_demos, n_steps = int(rng.integers(1, 40)), int(rng.integers(2, 300))
    kw = settings(rng)
    kw["noise_per_step_range"] = 0.0
    seed = int(rng.integers(1 << 30))
    case.note(n_demos=n_demos, n_steps=n_steps, seed=seed, **kw)
    T, Y = generate_1d_trajectory_distribution(
        n_demos, n_steps, random_state=np.random.RandomState(seed), **kw)
    case.check(np.shape(T) == (n_steps,), "shape of times")
    case.check(np.shape(Y) == (n_demos, n_steps, 1), "shape of trajectories",
               shape=np.shape(Y))
    case.close(T, np.linspace(0.0, 1.0, n_steps), 1e-12, "times", scale=1.0)
    D = Y[:, :, 0] - np.cos(2.0 * np.pi * T)
    a, b = kw["initial_offset_range"], kw["final_offset_range"]
    s = 1.0 + a + b
    # a straight line between two offsets
    line = D[:, :1] + (D[:, -1:] - D[:, :1]) * T
    case.close(D, line, 1e-10, "offsets change linearly", scale=s)
    for x, r, name in ((D[:, 0], a, "initial"), (D[:, -1], b, "final")):
        case.check(np.all(np.abs(x) <= 0.5 * r + 1e-9 * s),
                   "range of %s offset" % name, got=x, range=r)
        if r > 0 and n_demos > 1:
            case.check(np.ptp(x) > 1e-9 * r, "%s offsets differ" % name)


def repeatable(case):
    rng = case.rng
    n_demos, n_steps = int(rng.integers(1, 6)), int(rng.integers(3, 60))
    kw = settings(rng)
    seed = int(rng.integers(1 << 30))
    case.note(n_demos=n_demos, n_steps=n_steps, seed=seed, **kw)

    def run(state):
        return generate_1d_trajectory_distribution(
            n_demos, n_steps, random_state=state, **kw)[1]

    before = np.random.get_state()[1].copy()
    A = run(np.random.RandomState(seed))
    np.random.rand(3)
    changed = np.random.get_state()
    B = run(np.random.RandomState(seed))
    C, D = run(None), run(None)
    E = run(np.random.RandomState(0))
    after = np.random.get_state()
    case.equal(A, B, "same random state")
    case.equal(C, D, "without random state")
    case.equal(C, E, "default random state has seed 0")
    case.check(np.array_equal(changed[1], after[1])
               and changed[2] == after[2], "global random state is kept")
    del before
    varied = kw["noise_per_step_range"] > 0 or kw["initial_offset_range"] > 0 \
        or kw["final_offset_range"] > 0
    if varied:
        F = run(np.random.RandomState(seed + 1))
        case.check(np.max(np.abs(A - F)) > 1e-6, "other random state")
        state = np.random.RandomState(seed)
        G, H = run(state), run(state)
        case.equal(A, G, "first use of a random state")
        case.check(np.max(np.abs(G - H)) > 1e-6, "second use continues")


def expected_covariance(n):
    """Smooth noise: unit variance of second differences per time step."""
    A = np.zeros((n + 2, n))
    for i in range(n):
        A[i, i] += 1.0
        A[i + 1, i] -= 2.0
        A[i + 2, i] += 1.0
    A *= (n - 1.0) ** 2
    return np.linalg.inv(A.T @ A)


def statistics(case):
    rng = case.rng
    n_demos, n_steps = 600, int(rng.integers(5, 60))
    kw = settings(rng)
    seed = int(rng.integers(1 << 30))
    case.note(n_demos=n_demos, n_steps=n_steps, seed=seed, **kw)
    T, Y = generate_1d_trajectory_distribution(
        n_demos, n_steps, random_state=np.random.RandomState(seed), **kw)
    case.event("trajectories", n_demos)
    D = Y[:, :, 0] - np.cos(2.0 * np.pi * T)
    a, b = kw["initial_offset_range"], kw["final_offset_range"]
    C = kw["noise_per_step_range"] ** 2 * expected_covariance(n_steps)
    C = C + (np.outer(1 - T, 1 - T) * a ** 2 + np.outer(T, T) * b ** 2) / 12.0
    sd = np.sqrt(np.diag(C))
    case.check(np.all(np.abs(D.mean(axis=0)) <= 6 * sd / np.sqrt(n_demos)
                      + 1e-9), "mean follows the cosine",
               got=np.max(np.abs(D.mean(axis=0)) / (sd + 1e-12)))
    got = D.std(axis=0)
    case.check(np.all(np.abs(got - sd) <= 0.25 * sd + 1e-9), "spread",
               ratio=got / (sd + 1e-12))
    case.seen(got)
    if kw["noise_per_step_range"] > 0 and n_steps > 4:
        # noise is smooth: neighbours are strongly correlated
        i = n_steps // 2
        r = np.corrcoef(D[:, i], D[:, i + 1])[0, 1]
        e = C[i, i + 1] / (sd[i] * sd[i + 1])
        case.check(abs(r - e) < 0.1, "correlation of neighbours", got=r,
                   expected=e)


@contextlib.contextmanager
def home():
    """A home directory of our own."""
    old = os.environ.get("HOME")
    with tempfile.TemporaryDirectory() as d:
        os.environ["HOME"] = d
        try:
            yield d
        finally:
            if old is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = old


def write(path, P, V, A, t, dt):
    """One file of the data set."""
    n = len(P)
    demos = np.empty((1, n), dtype=object)
    dtype = [(k, "O") for k in ("pos", "t", "vel", "acc", "dt")]
    for i in range(n):
        s = np.empty((1, 1), dtype=dtype)
        s[0, 0] = (P[i], t[i][np.newaxis], V[i], A[i], np.array([[dt]]))
        demos[0, i] = s
    scipy.io.savemat(path, {"demos": demos, "dt": np.array([[dt]])})


NAMES = (
    "Angle BendedLine CShape DoubleBendedLine GShape JShape JShape_2 Khamesh "
    "LShape Leaf_1 Leaf_2 Line Multi_Models_1 Multi_Models_2 Multi_Models_3 "
    "Multi_Models_4 NShape PShape RShape Saeghe Sharpc Sine Snake Spoon "
    "Sshape Trapezoid WShape Worm Zshape heee").split()


def lasa(case):
    rng = case.rng
    names = list(NAMES)
    rng.shuffle(names)
    names = names[:int(rng.integers(1, 7)) if rng.random() < 0.9 else 30]
    case.note(names=names)
    content = {}
    with home() as d:
        directory = os.path.join(
            d, ".movement_primitive_data", "lasa_data", "DataSet")
        os.makedirs(directory)
        for name in names:
            n, k = int(rng.integers(1, 8)), int(rng.integers(3, 60))
            scale = kinds.logu(rng, 0.1, 100.0)
            P, V, A = rng.normal(size=(3, n, 2, k)) * scale
            dt = kinds.logu(rng, 1e-3, 0.1)
            t = np.tile(np.arange(k) * dt, (n, 1))
            write(os.path.join(directory, name + ".mat"), P, V, A, t, dt)
            content[name] = (P, V, A, dt, n, k)
        before = sorted(os.listdir(directory))
        for i, name in enumerate(sorted(names)):
            T, X, Xd, Xdd, dt, got = load_lasa(i)
            P, V, A, expected_dt, n, k = content[name]
            case.event("recordings", n)
            case.check(got == name, "name", got=got, expected=name)
            for x, e, what in ((X, P, "positions"), (Xd, V, "velocities"),
                               (Xdd, A, "accelerations")):
                case.check(np.shape(x) == (n, k, 2), "shape of " + what,
                           shape=np.shape(x))
                case.equal(x, np.transpose(e, (0, 2, 1)), what)
            case.check(np.ndim(dt) == 0 and abs(dt - expected_dt) < 1e-15,
                       "time between steps", got=dt, expected=expected_dt)
            case.check(np.shape(T) == (n, k), "shape of times")
            case.check(np.all(np.diff(T, axis=1) > 0.0), "times increase")
            case.close(np.diff(T, axis=1), np.full(
                (n, k - 1), np.mean(np.diff(T[0]))), 1e-9,
                "equidistant times", scale=np.max(np.abs(T)))
            case.check(np.all(T == T[0]), "same times for all recordings")
            case.check(np.all(T[:, 0] == 0.0), "times start at zero")
        case.check(sorted(os.listdir(directory)) == before,
                   "data set is not changed")


GROUPS = [
    Group("noise_free", noise_free, 300, 5000),
    Group("repeatable", repeatable, 200, 3000),
    Group("statistics", statistics, 80, 1200),
    Group("lasa", lasa, 100, 1500),
]
