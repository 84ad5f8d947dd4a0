"""Spring-dampers follow the analytic solution to their goal."""
import numpy as np

from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)

from .. import kinds, ref
from ..core import Group

PROPERTY = "C22"
TECHNIQUE = ("runtime monitor comparing traces, extrapolated to vanishing "
             "integration steps, with the analytic solution")
RULE = ("Random stiffness, damping (under-, critically, over-damped), start "
        "velocities, steps, goals changed at run time, constant coupling "
        "accelerations, rotations up to half turns.")
ASSUMPTIONS = ["stable integration steps"]


class Push:
    """Constant acceleration."""

    def __init__(self, a):
        self.a = np.asarray(a, dtype=float)

    def coupling(self, y, yd):
        return np.zeros_like(yd), np.copy(self.a)


def system(rng, default=False):
    w = kinds.logu(rng, 0.3, 30.0)
    k = w * w
    c = None
    z = 1.0
    if not default and rng.random() < 0.6:
        z = float(rng.choice([0.0, 0.2, 0.5, 0.9, 1.0, 1.3, 2.0]))
        c = 2 * z * w
    # fastest rate of the system
    fast = w * max(z + np.sqrt(max(z * z - 1, 0)), 0.2)
    h = rng.uniform(0.005, 0.02) / fast
    m = int(rng.integers(1, 5))
    return w, k, c, 2 * z * w, h, h * m


def run(make, how, n, events, coupling):
    """Trace of one execution; events maps step to new goal."""
    obj = make()
    if how == "open_loop":
        T, Y = obj.open_loop(run_t=(n - 0.5) * obj.dt, coupling_term=coupling)
        return np.array(Y)[:n + 1], None
    y, yd = np.copy(obj.start_y), np.copy(obj.start_yd)
    Y, V = [np.copy(y)], [np.copy(yd)]
    for i in range(n):
        if i in events:
            obj.configure(goal_y=events[i])
        y, yd = obj.step(y, yd, coupling) if coupling is not None \
            else obj.step(y, yd)
        Y.append(np.copy(y))
        V.append(np.copy(yd))
    return np.array(Y), np.array(V)


def pieces(n, dt, k, c, x0, v0, goals, push):
    """Analytic solution, goals is a sorted list of (step, goal)."""
    X, V = np.empty((n + 1, len(x0))), np.empty((n + 1, len(x0)))
    for j, (i, g) in enumerate(goals):
        end = goals[j + 1][0] if j + 1 < len(goals) else n
        rest = g + push / k
        x, v = ref.oscillator(np.arange(end - i + 1) * dt, k, c, x0 - rest,
                              v0)
        X[i:end + 1], V[i:end + 1] = rest + x, v
        x0, v0 = X[end], V[end]
    return X, V


def positions(case):
    rng = case.rng
    n_dims = int(rng.choice([1, 2, 3, 4, 6, 7, 12]))
    w, k, c, damping, h, dt = system(rng)
    n = int(np.clip(rng.uniform(0.5, 6.0) / w / dt, 3, 400))
    scale = kinds.logu(rng, 1e-2, 1e2)
    start = rng.normal(size=n_dims) * scale
    goal = rng.normal(size=n_dims) * scale
    v0 = np.zeros(n_dims) if rng.random() < 0.5 \
        else rng.normal(size=n_dims) * scale * w
    how = "open_loop" if rng.random() < 0.4 else "step"
    events = {}
    if how == "step" and rng.random() < 0.5:
        for i in rng.integers(1, n, size=2):
            events[int(i)] = rng.normal(size=n_dims) * scale
    push = np.zeros(n_dims)
    coupling = None
    if rng.random() < 0.4:
        push = rng.normal(size=n_dims) * scale * k * 0.5
        coupling = Push(push)
    case.note(n_dims=n_dims, k=k, c=c, h=h, dt=dt, n=n, how=how, scale=scale,
              events=sorted(events), coupling=coupling is not None)

    def make(h):
        def f():
            s = SpringDamper(n_dims, dt=dt, k=k, c=c, int_dt=h)
            s.configure(start_y=start, goal_y=goal, start_yd=v0)
            return s
        return f

    # halving keeps the number of sub-steps of every step exact
    Y1, V1 = run(make(h * 1.0000001), how, n, events, coupling)
    Y2, V2 = run(make(h / 2 * 1.0000001), how, n, events, coupling)
    case.check(len(Y1) == n + 1, "number of samples", n=len(Y1), want=n + 1)
    goals = [(0, goal)] + sorted(events.items())
    X, V = pieces(n, dt, k, damping, start, v0, goals, push)
    size = np.max(np.abs(X)) + scale
    # first order error of the integration
    case.close(Y1, X, 0.15, "analytic solution", scale=size)
    # extrapolation to vanishing steps
    case.close(2 * Y2 - Y1, X, 4e-3, "extrapolated solution", scale=size)
    if V1 is not None:
        vs = np.max(np.abs(V)) + scale * w
        case.close(2 * V2 - V1, V, 8e-3, "extrapolated velocity", scale=vs)
    case.event("states_observed", 2 * (n + 1))


def orientations(case):
    rng = case.rng
    w, k, c, damping, h, dt = system(rng)
    n = int(np.clip(rng.uniform(0.5, 6.0) / w / dt, 3, 300))
    axis = rng.normal(size=3)
    if rng.random() < 0.3:
        axis = np.eye(3)[rng.integers(3)] * rng.choice([-1.0, 1.0])
    axis /= np.linalg.norm(axis)
    goal = kinds.quat(rng)
    angle = float(rng.choice([1e-9, 1e-4, 0.5, 1.5, 2.5, 3.0, np.pi]))
    if damping == 0.0:  # swings back to the same distance
        angle = min(angle, 2.5)
    half = angle == np.pi
    v = 0.0
    if rng.random() < 0.5 and not half:
        v = rng.uniform(-1, 1) * w * 0.5
    push = 0.0
    coupling = None
    if rng.random() < 0.3 and not half:
        push = rng.uniform(-0.3, 0.3) * k
        coupling = Push(axis * push)
    # x is the angle from the goal to the state
    X, V = pieces(n, dt, k, damping, np.array([angle]), np.array([v]),
                  [(0, np.zeros(1))], np.array([push]))
    if np.max(np.abs(X)) > 3.1 and not half:
        v, push, coupling = 0.0, 0.0, None
        X, V = pieces(n, dt, k, damping, np.array([angle]), np.array([v]),
                      [(0, np.zeros(1))], np.array([push]))
    start = ref.qmul(ref.qexp(axis * angle), goal)
    if rng.random() < 0.3:
        start = -start
    how = "open_loop" if rng.random() < 0.4 else "step"
    case.note(k=k, c=c, h=h, dt=dt, n=n, how=how, axis=axis, angle=angle,
              v=v, push=push)

    def make(h):
        def f():
            s = SpringDamperOrientation(dt=dt, k=k, c=c, int_dt=h)
            s.configure(start_y=start, goal_y=goal, start_yd=v * axis)
            return s
        return f

    Y1, V1 = run(make(h * 1.0000001), how, n, {}, coupling)
    Y2, V2 = run(make(h / 2 * 1.0000001), how, n, {}, coupling)
    case.check(len(Y1) == n + 1, "number of samples", n=len(Y1), want=n + 1)
    case.close(np.linalg.norm(Y1, axis=1), np.ones(n + 1), 1e-9,
               "unit quaternions", scale=1.0)
    D1 = ref.qlog(ref.qmul(Y1, ref.qconj(goal)))
    D2 = ref.qlog(ref.qmul(Y2, ref.qconj(goal)))
    size = max(np.max(np.abs(X)), 1e-4)
    if half:  # either way round
        D1, D2 = (D.dot(axis) * np.sign(D[1].dot(axis)) for D in (D1, D2))
        D1[0] = D2[0] = angle
        case.close(2 * D2 - D1, X[:, 0], 5e-3, "extrapolated angle",
                   scale=size)
    else:
        off = D1 - np.outer(D1.dot(axis), axis)
        case.close(off, 0 * off, 1e-6, "leaves the geodesic", scale=1.0)
        case.close(D1.dot(axis), X[:, 0], 0.2, "analytic angle", scale=size)
        case.close(2 * D2.dot(axis) - D1.dot(axis), X[:, 0], 5e-3,
                   "extrapolated angle", scale=size)
        if V1 is not None:
            vs = max(np.max(np.abs(V)), 1e-4 * w)
            case.close(2 * V2 - V1, np.outer(V[:, 0], axis), 1e-2,
                       "extrapolated angular velocity", scale=vs)
    case.event("states_observed", 2 * (n + 1))


def approach(case):
    """Default damping: no overshoot, arrives and stays."""
    rng = case.rng
    w, k, _, _, h, dt = system(rng, default=True)
    h *= float(rng.choice([1.0, 5.0, 15.0]))
    dt = h * int(rng.integers(1, 5))
    n = int(25.0 / w / dt) + 2
    if rng.random() < 0.5:
        n_dims = int(rng.choice([1, 2, 3, 4, 6, 7, 12]))
        s = SpringDamper(n_dims, dt=dt, k=k, int_dt=h)
        scale = kinds.logu(rng, 1e-2, 1e2)
        start = rng.normal(size=n_dims) * scale
        goal = rng.normal(size=n_dims) * scale
        kind = "position"
    else:
        s = SpringDamperOrientation(dt=dt, k=k, int_dt=h)
        start, goal = kinds.quat_pair(rng, np.pi - 0.01)
        scale, kind = 1.0, "orientation"
    s.configure(start_y=start, goal_y=goal)
    case.note(kind=kind, k=k, h=h, dt=dt, n=n, start=start, goal=goal)
    if rng.random() < 0.5:
        _, Y = s.open_loop(run_t=n * dt)
    else:
        Y, _ = run(lambda: s, "step", n, {}, None)
    if kind == "position":
        D = goal - Y
    else:
        D = ref.qlog(ref.qmul(goal, ref.qconj(Y)))
    first = D[0]
    size = np.max(np.abs(first)) + 1e-9
    case.check(np.all(D * np.sign(first) >= -1e-6 * size), "overshoot",
               worst=np.min(D * np.sign(first)) / size)
    step = np.diff(np.linalg.norm(D, axis=1))
    case.check(np.all(step <= 1e-6 * size), "moves away from the goal",
               worst=step.max() / size)
    case.close(D[-1], 0 * D[-1], 1e-3, "arrives at the goal", scale=size)
    case.event("states_observed", len(Y))
    # stays at the goal
    s.configure(start_y=goal, goal_y=goal)
    s.reset()
    Z = s.open_loop(run_t=20 * dt)[1]
    if kind == "orientation":
        e = ref.qlog(ref.qmul(goal, ref.qconj(Z)))
    else:
        e = Z - goal
    case.close(e, 0 * e, 1e-7, "leaves the goal", scale=scale)


def given(case):
    """Continues from the state it is given, whenever that is."""
    rng = case.rng
    w, k, c, _, h, dt = system(rng)
    if rng.random() < 0.5:
        n_dims = int(rng.choice([1, 2, 3, 4, 6, 7, 12]))
        scale = kinds.logu(rng, 1e-2, 1e2)
        nv = n_dims

        def make():
            return SpringDamper(n_dims, dt=dt, k=k, c=c, int_dt=h)

        def state():
            return rng.normal(size=n_dims) * scale
    else:
        scale, nv = 1.0, 3

        def make():
            return SpringDamperOrientation(dt=dt, k=k, c=c, int_dt=h)

        def state():
            return kinds.rot_by(rng, goal, rng.uniform(0.0, 2.5))
    goal = kinds.quat(rng) if nv == 3 and scale == 1.0 else None
    goal = state() if goal is None else goal
    obj = make()
    obj.configure(start_y=state(), goal_y=goal,
                  start_yd=rng.normal(size=nv) * scale * w * 0.3)
    case.note(k=k, c=c, h=h, dt=dt, nv=nv, scale=scale, goal=goal)
    for _ in range(4):
        y, yd = state(), rng.normal(size=nv) * scale * w * 0.3
        n = int(rng.integers(1, 4))
        fresh = make()
        fresh.configure(start_y=y, goal_y=goal, start_yd=yd)
        A = obj.n_steps_open_loop(y, yd, n)
        B = fresh.n_steps_open_loop(y, yd, n)
        # times of integration steps are rounded differently
        case.close(A[0], B[0], 1e-7, "continues from another state",
                   scale=np.max(np.abs(np.r_[B[0], scale])))
        case.close(A[1], B[1], 1e-7, "continues with another velocity",
                   scale=np.max(np.abs(np.r_[B[1], scale * w])))
        case.event("states_observed", 2 * n)


GROUPS = [
    Group("given", given, 200, 3000),
    Group("positions", positions, 300, 4000),
    Group("orientations", orientations, 240, 3000),
    Group("approach", approach, 160, 3000),
]
