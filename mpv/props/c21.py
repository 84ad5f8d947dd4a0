"""Minimum jerk trajectories meet their boundary conditions."""
import numpy as np

from movement_primitives.data import generate_minimum_jerk
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory

from .. import kinds
from ..core import Group

PROPERTY = "C21"
TECHNIQUE = ("runtime monitor comparing samples with the analytic minimum "
             "jerk profile, trace monitor of the step-wise version")
RULE = ("Random starts and goals (integers, equal, huge), any step size, 2 "
        "to 400 steps, quotients that are not exact in floating point.")
ASSUMPTIONS = ["execution time is a whole number of at least two steps"]


def profile(s):
    """Position, velocity, acceleration of the unit movement."""
    s = np.clip(s, 0.0, 1.0)
    return (10 * s ** 3 - 15 * s ** 4 + 6 * s ** 5,
            30 * s ** 2 - 60 * s ** 3 + 30 * s ** 4,
            60 * s - 180 * s ** 2 + 120 * s ** 3)


def problem(rng):
    n_dims = int(rng.integers(1, 8))
    n = int(rng.choice([2, 3, 4, 5, 10, 30, 100, 400]))
    if rng.random() < 0.6:
        dt = float(rng.choice([0.001, 0.01, 0.1, 0.05, 0.02, 0.3, 0.7, 1.0]))
        # as a user writes it: a decimal number
        T = float("%.6g" % (n * dt))
    else:
        dt = kinds.logu(rng, 1e-3, 1.0)
        T = n * dt
    scale = kinds.logu(rng, 1e-3, 1e3)
    start = rng.normal(size=n_dims) * scale
    goal = rng.normal(size=n_dims) * scale
    r = rng.random()
    if r < 0.15:
        start = rng.integers(-5, 5, size=n_dims)
        goal = rng.integers(-5, 5, size=n_dims)
    elif r < 0.25:
        start, goal = np.round(start).astype(int), goal
    elif r < 0.3:
        goal = np.copy(start)
    elif r < 0.4:
        goal[0] = start[0]
    return start, goal, T, dt, n


def verify(case, X, Xd, Xdd, start, goal, T, dt, n):
    case.check(len(X) == n + 1, "number of samples", n=len(X), want=n + 1)
    size = max(np.max(np.abs(start)), np.max(np.abs(goal)), 1e-9)
    case.equal(X[0], np.asarray(start, dtype=float), "start")
    case.close(X[-1], goal, 1e-7, "goal", scale=size)
    case.close(Xd[0], 0 * X[0], 1e-9, "initial velocity", scale=size / T)
    case.close(Xd[-1], 0 * X[0], 1e-5, "final velocity", scale=size / T)
    if Xdd is not None:
        case.close(Xdd[-1], 0 * X[0], 1e-3, "final acceleration",
                   scale=size / T ** 2)
    d = np.asarray(goal, dtype=float) - start
    length = np.linalg.norm(d)
    if length > 0:
        along = (X - start).dot(d) / length ** 2
        off = (X - start) - np.outer(along, d)
        case.close(off, 0 * off, 1e-8, "straight line", scale=size)
        step = np.diff(along)
        case.check(np.all(step >= -1e-8), "monotonic", worst=step.min())
    t = np.arange(n + 1) * dt
    best = None
    # The movement may take the time of all or of all but one step.
    for D in (T - dt, T):
        p, v, a = profile(t / D)
        e = np.max(np.abs(X - start - np.outer(p, d)))
        if best is None or e < best[0]:
            best = e, p, v / D, a / D ** 2, D
    _, p, v, a, D = best
    case.close(X, start + np.outer(p, d), 1e-7, "minimum jerk profile",
               scale=size)
    case.close(Xd, np.outer(v, d), 1e-5, "velocity is the derivative",
               scale=size / D)
    if Xdd is not None:
        case.close(Xdd, np.outer(a, d), 1e-3, "acceleration is the "
                   "derivative", scale=size / D ** 2)


def generated(case):
    start, goal, T, dt, n = problem(case.rng)
    case.note(start=start, goal=goal, T=T, dt=dt, n=n)
    a, b = np.copy(start), np.copy(goal)
    X, Xd, Xdd = generate_minimum_jerk(start, goal, T, dt)
    case.equal(start, a, "start changed")
    case.equal(goal, b, "goal changed")
    verify(case, X, Xd, Xdd, start, goal, T, dt, n)
    case.event("samples", len(X))
    if case.rng.random() < 0.3:
        Y = generate_minimum_jerk(start.tolist(), goal.tolist(), T, dt)[0]
        case.close(Y, X, 1e-12, "lists", scale=1 + np.max(np.abs(X)))
    if case.rng.random() < 0.1:
        case.raises(ValueError, lambda: generate_minimum_jerk(
            np.zeros(2), np.zeros(3)), "shapes", match="hape")


def stepwise(case):
    rng = case.rng
    start, goal, T, dt, n = problem(rng)
    n = int(n)
    case.note(start=start, goal=goal, T=T, dt=dt, n=n)
    m = MinimumJerkTrajectory(len(start), T, dt)
    m.configure(start_y=start, goal_y=goal)
    X, Xd, _ = generate_minimum_jerk(start, goal, T, dt)
    for attempt in range(3):
        y, yd = np.array(start, dtype=float), np.zeros(len(start))
        Y, V = [], []
        # an execution may be left early
        k = n + 1 if attempt != 1 else int(rng.integers(1, n + 2))
        for _ in range(k):
            y, yd = m.step(y, yd)
            Y.append(np.copy(y))
            V.append(np.copy(yd))
            if rng.random() < 0.3:
                y, yd = y + 1.0, yd * 2.0  # feedback is not used
            case.event("steps")
        if k == n + 1:
            verify(case, np.array(Y), np.array(V), None, start, goal, T, dt,
                   n)
        case.close(np.array(Y), X[:k], 1e-10, "samples in order",
                   scale=1e-9 + np.max(np.abs(X)))
        case.close(np.array(V), Xd[:k], 1e-8, "velocities in order",
                   scale=1e-9 + np.max(np.abs(X)) / T)
        m.reset()
        if rng.random() < 0.3:
            start, goal = goal + 0.0, start + 1.0
            m.configure(start_y=start, goal_y=goal)
            X, Xd, _ = generate_minimum_jerk(start, goal, T, dt)


GROUPS = [
    Group("generated", generated, 600, 12000),
    Group("stepwise", stepwise, 300, 5000),
]
