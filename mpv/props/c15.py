"""Obstacle avoidance steers away and never corrupts the state."""
import numpy as np

from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, obstacle_avoidance_acceleration_2d,
    obstacle_avoidance_acceleration_3d, CouplingTermObstacleAvoidance2D,
    CouplingTermObstacleAvoidance3D)

from .. import kinds
from ..core import Group

PROPERTY = "C15"
TECHNIQUE = ("runtime monitor of accelerations against an independent "
             "formula, metamorphic relations and executed DMPs")
RULE = ("Random and degenerate states (at rest, at the obstacle, heading "
        "exactly toward or away from it), units from 1e-3 to 1e3, planar, "
        "spatial, vectorised and compiled versions, rotated coordinates.")
ASSUMPTIONS = ["distance times speed well above the guard 1e-10 where exact "
               "values are compared"]

V2 = {
    "function": obstacle_avoidance_acceleration_2d,
    "class": lambda y, yd, o, g, b: CouplingTermObstacleAvoidance2D(
        o, g, b).coupling(y, yd)[1],
    "fast": lambda y, yd, o, g, b: CouplingTermObstacleAvoidance2D(
        o, g, b, fast=True).coupling(y, yd)[1],
}
V3 = {
    "function": obstacle_avoidance_acceleration_3d,
    "class": lambda y, yd, o, g, b: CouplingTermObstacleAvoidance3D(
        o, g, b).coupling(y, yd)[1],
}


def formula(y, yd, o, gamma, beta):
    """Published formula in terms of vectors, any dimension."""
    d = o - y
    v = np.linalg.norm(yd)
    if v == 0.0:
        return np.zeros_like(y)
    u = yd / v
    side = d - np.dot(d, u) * u  # perpendicular to the velocity
    s = np.linalg.norm(side)
    if s == 0.0:
        return np.zeros_like(y)
    theta = np.arctan2(s, np.dot(d, u))
    return -gamma * v * theta * np.exp(-beta * theta) * side / s


def state(rng, n, unit):
    o = rng.normal(size=n) * unit * kinds.logu(rng, 0.3, 3.0)
    if rng.random() < 0.1:
        o[:] = 0.0
    direction = rng.normal(size=n)
    direction /= np.linalg.norm(direction)
    y = o - direction * unit * kinds.logu(rng, 0.1, 10.0)
    yd = rng.normal(size=n)
    yd *= unit * kinds.logu(rng, 0.1, 10.0) / np.linalg.norm(yd)
    gamma = kinds.logu(rng, 1.0, 2000.0)
    beta = kinds.logu(rng, 0.5, 10.0)
    return y, yd, o, gamma, beta


def monitor(case, fns, n):
    rng = case.rng
    unit = kinds.logu(rng, 1e-2, 1e3)
    y, yd, o, gamma, beta = state(rng, n, unit)
    case.note(y=y, yd=yd, o=o, gamma=gamma, beta=beta)
    F = formula(y, yd, o, gamma, beta)
    size = gamma * np.linalg.norm(yd)
    # a constant guards the division by distance times speed
    guard = 1e-10 / (np.linalg.norm(o - y) * np.linalg.norm(yd))
    tol = 1e-5 + 30 * np.sqrt(guard)
    for name, fn in fns.items():
        a = fn(np.copy(y), np.copy(yd), np.copy(o), gamma, beta)
        case.check(np.shape(a) == (n,), "shape", shape=np.shape(a))
        case.check(np.all(np.isfinite(a)), "not finite")
        case.close(a, F, tol, "published formula (%s)" % name, scale=size)
        case.check(abs(np.dot(a, yd)) <= 1e-9 * size * np.linalg.norm(yd),
                   "not perpendicular to velocity (%s)" % name, a=a)
        case.check(np.dot(a, o - y) <= 1e-9 * size * np.linalg.norm(o - y),
                   "points toward the obstacle (%s)" % name, a=a)
        d = o - y
        c = np.dot(d, yd) / np.linalg.norm(d) / np.linalg.norm(yd)
        if abs(c) < 0.99:
            case.close(a, F, 1e-5 + 30 * guard, "published formula, large angle (%s)"
                       % name, scale=size)
        # units
        f = kinds.logu(rng, 0.2, 50.0)
        b = fn(f * y, f * yd, f * o, gamma, beta)
        case.close(b, f * a, tol, "unit of length (%s)" % name,
                   scale=f * size)
        # only the direction of velocity determines the angle
        f = kinds.logu(rng, 0.3, 3.0)
        case.close(fn(y, f * yd, o, gamma, beta), f * a, tol,
                   "proportional to speed (%s)" % name, scale=f * size)
        shift = rng.normal(size=n) * unit
        case.close(fn(y + shift, yd, o + shift, gamma, beta), a, tol,
                   "origin (%s)" % name, scale=size)
        # rotated coordinates
        R = np.linalg.qr(rng.normal(size=(n, n)))[0]
        case.close(fn(R.dot(y), R.dot(yd), R.dot(o), gamma, beta), R.dot(a),
                   tol, "orientation of coordinates (%s)" % name, scale=size)
    if n == 2:
        # default arguments
        a = fns["function"](y, yd, o)
        b = formula(y, yd, o, 1000.0, 20.0 / np.pi)
        case.close(a, b, tol, "default arguments",
                   scale=1000 * np.linalg.norm(yd))


def planar(case):
    monitor(case, V2, 2)


def spatial(case):
    monitor(case, V3, 3)


def degenerate(case):
    rng = case.rng
    n = 2 + case.index % 2
    fns = V2 if n == 2 else V3
    unit = kinds.logu(rng, 1e-3, 1e3)
    y, yd, o, gamma, _ = state(rng, n, unit)
    beta = 20.0 / np.pi
    if rng.random() < 0.5:
        y, yd, o = np.round(4 * y), np.round(4 * yd), np.round(4 * o)
    what = rng.choice(["rest", "at", "toward", "away", "almost", "tiny",
                       "perpendicular"])
    if what == "rest":
        yd = np.zeros(n)
    elif what == "at":
        y = np.copy(o)
    elif what == "toward":
        yd = (o - y) * rng.choice([1.0, 0.5, 3.0, 1 / 3])
    elif what == "away":
        yd = (y - o) * rng.choice([1.0, 0.5, 3.0, 1 / 3])
    elif what == "almost":
        yd = (o - y) * rng.choice([-1.0, 1.0]) + rng.normal(size=n) * 1e-9
    elif what == "tiny":
        yd = yd * 1e-15
    elif what == "perpendicular":
        yd = np.zeros(n)
        yd[0], yd[1] = -(o - y)[1], (o - y)[0]
    case.note(what=what, y=y, yd=yd, o=o, gamma=gamma)
    case.event(what)
    v = np.linalg.norm(yd)
    for name, fn in fns.items():
        a = fn(np.copy(y), np.copy(yd), np.copy(o), gamma, beta)
        case.seen(np.r_[y, yd, a])
        case.check(np.shape(a) == (n,) and np.all(np.isfinite(a)),
                   "not finite (%s, %s)" % (what, name), a=a)
        case.check(np.linalg.norm(a) <= gamma * v / (np.e * beta)
                   * (1 + 1e-9), "larger than the maximum of the formula "
                   "(%s, %s)" % (what, name), a=a)
        if what == "rest":
            case.check(np.all(a == 0.0), "acceleration at rest (%s)" % name,
                       a=a)
        if what in ("toward", "away") and v * np.linalg.norm(o - y) > 1e-2:
            # undefined side: negligible
            case.check(np.linalg.norm(a) <= 2e-4 * gamma * v + 1e-300,
                       "heading %s the obstacle (%s)" % (what, name), a=a)


def agreement(case):
    """All versions on the same states, batches of states."""
    rng = case.rng
    unit = kinds.logu(rng, 1e-2, 1e2)
    shape = tuple(int(k) for k in rng.integers(1, 6, size=rng.integers(1, 4)))
    n = int(np.prod(shape))
    S = [state(rng, 2, unit) for _ in range(n)]
    o, gamma, beta = S[0][2:]
    Y = np.array([s[0] for s in S]).reshape(shape + (2,))
    Yd = np.array([s[1] for s in S]).reshape(shape + (2,))
    Yd[rng.random(shape) < 0.1] = 0.0
    case.note(shape=shape, o=o, gamma=gamma, beta=beta)
    A = obstacle_avoidance_acceleration_2d(Y, Yd, o, gamma, beta)
    case.check(A.shape == Y.shape, "shape of batch", shape=A.shape)
    y, yd, a = Y.reshape(-1, 2), Yd.reshape(-1, 2), A.reshape(-1, 2)
    scale = gamma * np.max(np.linalg.norm(yd, axis=1)) + 1e-300
    # embeds the plane in space
    R = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    if rng.random() < 0.3:
        R = np.eye(3)
    E = R[:, :2]
    B = obstacle_avoidance_acceleration_3d(Y.dot(E.T), Yd.dot(E.T), E.dot(o),
                                           gamma, beta)
    case.check(np.shape(B) == shape + (3,), "shape of batch in space",
               shape=np.shape(B), expected=shape + (3,))
    case.close(B, A.dot(E.T), 2e-6, "batch in plane and space", scale=scale)
    for i in range(n):
        for name, fn in V2.items():
            case.close(fn(y[i], yd[i], o, gamma, beta), a[i], 1e-7,
                       "batch and single (%s)" % name, scale=scale)
        case.close(V3["class"](E.dot(y[i]), E.dot(yd[i]), E.dot(o), gamma,
                               beta), E.dot(a[i]), 2e-6,
                   "plane and space", scale=scale)
    ct = CouplingTermObstacleAvoidance2D(o, gamma, beta)
    cd, cdd = ct.coupling(Y, Yd)
    case.close(cdd, A, 1e-12, "coupling term", scale=scale)
    case.check(np.all(np.asarray(cd) == 0.0), "velocity of coupling term")
    case.event("states_compared", n)


def reaches_goal(case):
    rng = case.rng
    n = 2 + case.index % 2
    cls = (DMP, DMPWithFinalVelocity)[case.index // 2 % 2]
    tau = kinds.exec_time(rng)
    kw = dict(execution_time=tau, dt=tau / 100, int_dt=tau / 400)
    dmp = cls(n, **kw)
    start = rng.normal(size=n)
    goal = rng.normal(size=n) + 1.0
    length = np.linalg.norm(goal - start)
    o = start + rng.uniform(0.2, 0.7) * (goal - start) \
        + rng.normal(size=n) * 0.1 * length
    if rng.random() < 0.15:
        o = 0.5 * (start + goal)  # exactly on the straight line
    w = rng.normal(size=n * 10) * 20 * length
    dmp.set_weights(w)
    dmp.configure(start_y=start, goal_y=goal)
    gamma = kinds.logu(rng, 10, 1000) * length
    if n == 2:
        ct = CouplingTermObstacleAvoidance2D(o, gamma,
                                             fast=bool(rng.integers(2)))
    else:
        ct = CouplingTermObstacleAvoidance3D(o, gamma)
    case.note(n=n, tau=tau, start=start, goal=goal, o=o, gamma=gamma,
              kind=cls.__name__)
    T, Y = dmp.open_loop(run_t=6 * tau, coupling_term=ct)
    case.seen(Y)
    case.check(np.all(np.isfinite(Y)), "trajectory is not finite")
    case.close(Y[-1], goal, 0.01, "reaches the goal", scale=length)
    y, yd = np.copy(start), np.zeros(n)
    for i in range(100):
        y, yd = dmp.step(y, yd, coupling_term=ct)
    case.close(y, Y[100], 1e-6, "steps and open loop",
               scale=np.max(np.abs(Y)) + 1)
    free = dmp.open_loop(run_t=6 * tau)[1]
    case.check(np.max(np.abs(free - Y)) > 0.0, "no effect of the obstacle")


GROUPS = [
    Group("planar", planar, 800, 8000),
    Group("spatial", spatial, 800, 8000),
    Group("degenerate", degenerate, 800, 8000),
    Group("agreement", agreement, 200, 2000),
    Group("reaches_goal", reaches_goal, 120, 1200),
]
