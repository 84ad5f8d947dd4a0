"""A learned movement reproduces its demonstration."""
import numpy as np

from .. import kinds, ref
from ..core import Group

PROPERTY = "C09"
TECHNIQUE = ("runtime monitor comparing executed traces of learned "
             "primitives with their demonstrations")
RULE = ("Smooth random demonstrations (positions and orientations, any "
        "sampling, start time, duration, data type) are learned and executed.")
ASSUMPTIONS = ["demonstrations start at rest (and end at rest unless a final "
               "velocity is allowed)", "enough basis functions and samples "
               "to represent the demonstration"]


def params(rng, kind, **kw):
    p = kinds.random_params(rng, kind, max_angle=2.2, start_velocity=False,
                            **kw)
    p["n_weights"] = int(rng.choice([30, 40, 60]))
    p["weights"] = np.zeros((p["n_vel"], p["n_weights"]))
    a = rng.uniform(20, 35, size=p["n_vel"])
    p["alpha"], p["beta"] = a, a / 4
    if rng.random() < 0.4:
        p["alpha"], p["beta"] = 25.0, 6.25
    p["goal_yd"] = np.zeros(p["n_vel"])
    return p


def error(p, Y, Z):
    """Deviation per sample, positions relative to the demonstrated range."""
    pd, _ = kinds.pos_dims(p)
    parts = []
    if len(pd):
        r = max(np.max(np.ptp(Z[:, pd], axis=0)), 1e-9)
        parts.append(np.max(np.abs(Y[:, pd] - Z[:, pd]), axis=1) / r)
    for o, _ in kinds.ori_dims(p):
        parts.append(ref.qdist(Y[:, o], Z[:, o]))
    return np.max(parts, axis=0)


def resample(p, T, Y, S):
    """Demonstration at other times (dense linear interpolation)."""
    out = np.empty((len(S), Y.shape[1]))
    for j in range(Y.shape[1]):
        out[:, j] = np.interp(S, T, Y[:, j])
    for o, _ in kinds.ori_dims(p):
        out[:, o] /= np.linalg.norm(out[:, o], axis=1)[:, np.newaxis]
    return out


def converged(obj, p, m, run=1):
    """Open-loop trajectory, extrapolated to vanishing step size."""
    S, X = kinds.open_loop(obj, p, run * p["tau"])
    dt, int_dt = obj.dt_, obj.int_dt
    obj.dt_, obj.int_dt = 0.5 * dt, 0.5 * int_dt
    _, Z = kinds.open_loop(obj, p, run * p["tau"])
    obj.dt_, obj.int_dt = dt, int_dt
    n = run * m + 1
    X = 2.0 * Z[:2 * n - 1:2] - X[:n]
    for o, _ in kinds.ori_dims(p):
        X[:, o] /= np.linalg.norm(X[:, o], axis=1)[:, np.newaxis]
    return S[:n], X


def reproduces(case):
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = params(rng, kind)
    n = int(rng.choice([200, 300, 500, 1200]))
    if rng.random() < 0.3:
        pd, _ = kinds.pos_dims(p)  # same start and goal
        p["goal_y"][pd] = p["start_y"][pd]
    uneven = rng.random() < 0.3
    T, Y = kinds.demonstration(rng, p, n=n)
    if uneven:
        s = np.linspace(0, 1, n)
        w = s + 0.15 * np.sin(2 * np.pi * s) / (2 * np.pi)
        Y = resample(p, T, Y, w * p["tau"])
        T = w * p["tau"]
    t0 = 0.0
    if rng.random() < 0.4:
        t0 = float(rng.choice([1.0, -3.0, 17.5])) * p["tau"]
    f = 1.0
    if rng.random() < 0.3 and kind != "fv":
        f = kinds.logu(rng, 0.2, 5.0)  # other duration than the DMP
    m = int(rng.choice([150, 200]))
    p["dt"] = p["tau"] / m
    p["int_dt"] = p["dt"] / 2
    kw = {}
    if kind != "fv" and rng.random() < 0.3:
        kw["allow_final_velocity"] = True
    case.note(n=n, t0=t0, f=f, uneven=uneven, options=kw, **kinds.describe(p))
    obj = kinds.construct(p)
    obj.imitate(t0 + f * T, np.copy(Y), **kw)
    S, X = converged(obj, p, m)
    D = resample(p, T, Y, S)
    e = error(p, X, D)
    case.seen(X)
    case.event("states_compared", len(e))
    case.close(X[0], Y[0], 1e-9, "starts at first state of demonstration",
               scale=kinds.state_scale(p))
    case.note(error=np.max(e))
    case.close(np.max(e), 0.0, 0.06 if kind == "fv" else 0.03,
               "follows the demonstration", scale=1.0)
    case.close(e[-1], 0.0, 0.02, "ends at last state of demonstration",
               scale=1.0)
    case.close(obj.start_y, Y[0], 1e-12, "start is configured",
               scale=kinds.state_scale(p))
    case.close(obj.goal_y, Y[-1], 1e-12, "goal is configured",
               scale=kinds.state_scale(p))
    # long after the end it is at the goal
    _, X = kinds.open_loop(obj, p, 3 * p["tau"])
    case.close(np.max(np.abs(X[-1] - Y[-1]) / kinds.state_scale(p)), 0.0, 0.02,
               "stays at last state of demonstration", scale=1.0)


def independent(case):
    """Neither earlier weights nor earlier configurations matter."""
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = kinds.random_params(rng, kind, max_angle=2.2, start_velocity=False)
    T, Y = kinds.demonstration(rng, p)
    kw = {}
    if rng.random() < 0.5:
        kw["regularization_coefficient"] = kinds.logu(rng, 1e-8, 10.0)
    if kind != "fv" and rng.random() < 0.3:
        kw["allow_final_velocity"] = True
    case.note(options=kw, **kinds.describe(p))
    a, b = kinds.construct(p), kinds.make(p)
    for _ in range(int(rng.integers(0, 3))):
        t, y = kinds.demonstration(rng, p, tau=kinds.exec_time(rng),
                                   goal=p["start_y"], start=p["goal_y"])
        b.imitate(t, y, **kw)
        if rng.random() < 0.5:
            kinds.open_loop(b, p)
    a.imitate(np.copy(T), np.copy(Y), **kw)
    b.imitate(np.copy(T), np.copy(Y), **kw)
    wa, wb = a.get_weights(), b.get_weights()
    case.close(wa, wb, 1e-9, "weights do not depend on the past",
               scale=max(np.max(np.abs(wa)), 1e-9))
    b.imitate(np.copy(T), np.copy(Y), **kw)
    case.close(wb, b.get_weights(), 1e-9, "learning again changes nothing",
               scale=max(np.max(np.abs(wa)), 1e-9))
    case.close(a.start_y, b.start_y, 1e-12, "start", scale=1.0)
    case.close(a.goal_y, b.goal_y, 1e-12, "goal", scale=1.0)
    # lists or other memory layouts of the same numbers
    c = kinds.construct(p)
    c.imitate(np.copy(T), np.asfortranarray(Y), **kw)
    case.close(c.get_weights(), wa, 1e-7, "memory layout does not matter",
               scale=max(np.max(np.abs(wa)), 1e-9))


def integers(case):
    rng = case.rng
    kind = ("dmp", "fv")[case.index % 2]
    p = kinds.random_params(rng, kind, start_velocity=False)
    T, Y = kinds.demonstration(rng, p)
    Y = np.round(Y / p["scale"] * 1000).astype(int)
    if rng.random() < 0.5:
        T = np.arange(len(T))
    case.note(**kinds.describe(p))
    a, b = kinds.construct(p), kinds.construct(p)
    a.imitate(T, Y)
    b.imitate(T.astype(float), Y.astype(float))
    A, B = kinds.open_loop(a, p)[1], kinds.open_loop(b, p)[1]
    case.close(A, B, 1e-9, "integer and float data")
    if p["n_weights"] >= 10:
        case.close(A[0], Y[0], 1e-9, "starts at first state",
                   scale=np.max(np.abs(Y)) + 1)
        case.close(a.goal_y, Y[-1], 1e-9, "goal is last state",
                   scale=np.max(np.abs(Y)) + 1)


def regularisation(case):
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = params(rng, kind)
    T, Y = kinds.demonstration(rng, p, n=300)
    p["dt"] = p["tau"] / 100
    p["int_dt"] = p["dt"] / 2
    case.note(**kinds.describe(p))
    norms, fits = [], []
    lambdas = [0.0, 1e-8, 1e-4, 1e-1, 10.0, 1e4]
    for r in lambdas:
        obj = kinds.construct(p)
        obj.imitate(T, Y, regularization_coefficient=r)
        norms.append(np.linalg.norm(obj.get_weights()))
        S, X = converged(obj, p, 100)
        D = resample(p, T, Y, S)
        fits.append(float(np.sqrt(np.mean(error(p, X, D) ** 2))))
    case.seen(norms)
    case.note(norms=norms, fits=fits)
    for i in range(1, len(lambdas) - 1):
        case.check(norms[i + 1] <= norms[i] * (1 + 1e-6) + 1e-12,
                   "regularisation does not shrink the weights", norms=norms)
    case.check(norms[-1] < 0.7 * norms[1], "regularisation has an effect",
               norms=norms)
    for f in fits[1:]:
        case.check(fits[0] <= f + 0.02, "regularisation fits better",
                   fits=fits)
    case.check(fits[-1] > 2 * fits[0], "strong regularisation has no effect",
               fits=fits)


def ridge(case):
    """The regression minimises |f - X w|^2 + coefficient * |w|^2.

    The normal equations (X X^T + r I) w(r) have the same right-hand side for
    all coefficients r.
    """
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = kinds.random_params(rng, kind, start_velocity=False)
    p["n_weights"] = int(rng.choice([2, 3, 5, 10, 20]))
    t0 = float(rng.choice([0.0, 0.5, -3.0]))
    T, Y = kinds.demonstration(
        rng, p, n=[None, None, 700, 2500][rng.integers(4)], t0=t0)
    case.note(steps=len(T), t0=t0, **kinds.describe(p))
    n = p["n_weights"]
    X = ref.forcing(T - T[0], T[-1] - T[0], np.eye(n))
    G = X.dot(X.T)
    right = []
    for r in (1e-3, kinds.logu(rng, 1e-3, 1.0), kinds.logu(rng, 1.0, 1e3)):
        obj = kinds.construct(p)
        obj.imitate(T, Y, regularization_coefficient=r)
        W = obj.get_weights().reshape(-1, n)
        right.append(W.dot(G + r * np.eye(n)))
    scale = np.max(np.abs(right[0]), axis=1, keepdims=True)
    scale = np.maximum(scale, 1e-6 * np.max(scale) + 1e-12)
    for b in right[1:]:
        case.close(b, right[0], 1e-5, "penalty of the regression",
                   scale=scale)


GROUPS = [
    Group("reproduces", reproduces, 320, 3200),
    Group("independent", independent, 160, 1600),
    Group("integers", integers, 60, 600),
    Group("regularisation", regularisation, 60, 600),
    Group("ridge", ridge, 120, 1200),
]
