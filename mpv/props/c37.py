"""The storage of given arrays does not matter."""
import numpy as np

from movement_primitives.data import generate_minimum_jerk
from movement_primitives.dmp import (
    CouplingTermObstacleAvoidance2D, CouplingTermObstacleAvoidance3D,
    obstacle_avoidance_acceleration_2d, obstacle_avoidance_acceleration_3d)
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.kinematics import Kinematics
from movement_primitives.promp import ProMP, via_points

from .. import kinds
from ..core import Group
from . import c05, promps, robots

PROPERTY = "C37"
TECHNIQUE = ("runtime differential monitor: the same numbers in arrays of "
             "another memory layout, number type or writability")
RULE = ("Random histories of all operations with array arguments on all "
        "classes are performed with contiguous float arrays and with strided, "
        "reversed, transposed, read-only, integer and single precision arrays "
        "of the same numbers.")
ASSUMPTIONS = ["the numbers are representable in the given type"]
FORMS = ("strided", "reversed", "columns", "readonly", "integer", "single",
         "inner")
EXTRA = ("goal_yd", "start_ydd", "goal_ydd")


def dress(rng, a, form):
    """The same numbers, stored in another way."""
    if form == "strided":
        out = np.full([2 * n + 1 for n in a.shape], 77.0)[
            tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
    elif form == "reversed":
        flip = (slice(None, None, -1),) * a.ndim
        return np.copy(a[flip])[flip]
    elif form == "columns":
        return np.asfortranarray(a)
    elif form == "inner":
        out = np.full([n + 2 for n in a.shape], np.nan)[
            tuple(slice(1, n + 1) for n in a.shape)]
    elif form == "integer":
        return a.astype(int)
    elif form == "single":
        return a.astype(np.float32)
    else:
        out = np.empty(a.shape)
    out[...] = a
    if form == "readonly":
        out.flags.writeable = False
    return out


class Caller:
    """Performs the same operation for two primitives."""

    def __init__(self, case, forms=FORMS):
        self.case = case
        self.form = str(case.rng.choice(forms))
        case.note(form=self.form)

    def exact(self, a):
        """Numbers that can be given in the chosen type."""
        a = np.array(a, dtype=float)
        if self.form == "integer":
            return np.round(a)
        if self.form == "single":
            return a.astype(np.float32).astype(float)
        return a

    def both(self, what, other, plain, *arrays):
        case, rng = self.case, self.case.rng
        which = rng.random(size=len(arrays)) < 0.7
        args = [dress(rng, a, self.form) if w else np.copy(a)
                for a, w in zip(arrays, which)]
        want = plain(*[np.copy(a) for a in arrays])
        got = other(*args)
        got = got if isinstance(got, tuple) else (got,)
        want = want if isinstance(want, tuple) else (want,)
        for g, w in zip(got, want):
            if g is None:
                continue
            g, w = np.asarray(g), np.asarray(w)
            case.check(g.shape == w.shape, what + ": shape")
            case.close(g, w, 0.05 if self.form == "single" else 1e-9,
                       what + ": result")
        case.event("calls")
        case.event("form_" + self.form, int(np.sum(which)))
        return [np.copy(w) for w in want if isinstance(w, np.ndarray)]


def exact_state(caller, p, y):
    y = np.array(y)
    pd = kinds.pos_dims(p)[0]
    y[pd] = caller.exact(y[pd])
    for q, _ in kinds.ori_dims(p):
        if caller.form == "integer":
            k = np.argmax(np.abs(y[q]))
            y[q] = np.eye(4)[k] * np.sign(y[q][k])
        else:
            y[q] = caller.exact(y[q])
    return y


def histories(case):
    rng = case.rng
    kind = c05.KINDS[case.index % len(c05.KINDS)]
    p = c05.params(rng, kind)
    caller = Caller(case)
    for k in ("start_y", "goal_y"):
        p[k] = exact_state(caller, p, p[k])
    for k in ("start_yd", "weights"):
        p[k] = caller.exact(p[k])
    for k in EXTRA:
        p[k] = caller.exact(3.0 * rng.normal(size=p["n_vel"]))
    case.note(**kinds.describe(p))
    a, b = kinds.construct(p), kinds.construct(p)

    def configure(names):
        def f(obj):
            return lambda *v: obj.configure(**dict(zip(names, v)))
        return f

    names = ["start_y", "start_yd"]
    if kind != "sf":
        names.append("goal_y")
    names += [k for k in EXTRA if rng.random() < 0.5]
    cfg = configure(names)
    caller.both("configure", cfg(a), cfg(b), *[p[n] for n in names])
    if kind in kinds.DMP_KINDS:
        caller.both("set_weights", a.set_weights, b.set_weights,
                    p["weights"].ravel())
    elif kind == "sf":
        for o in (a, b):
            kinds.set_weights(o, p)
    ops = ["step"] * 6 + ["configure", "reset"]
    if kind != "mj":
        ops += ["open_loop", "n_steps"]
    if kind in kinds.DMP_KINDS:
        ops += ["set_weights", "imitate"]
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    used = 0
    for _ in range(12):
        op = str(rng.choice(ops))
        if op == "step":
            if kind == "mj" and used >= round(p["tau"] / p["dt"]):
                continue
            used += 1
            y, yd = caller.both(
                "step", lambda u, v: kinds.step(a, p, u, v),
                lambda u, v: kinds.step(b, p, u, v), y, yd)
            y, yd = exact_state(caller, p, y), caller.exact(yd)
        elif op in ("reset", "configure"):
            if op == "configure":
                q = kinds.random_params(
                    rng, "dmp" if kind == "mj" else kind, n_dims=p["n_dims"])
                for n in set(names) - set(EXTRA):
                    p[n] = exact_state(caller, p, q[n]) \
                        if n in ("start_y", "goal_y") else caller.exact(q[n])
                caller.both("configure", cfg(a), cfg(b),
                            *[p[n] for n in names])
            a.reset()
            b.reset()
            used = 0
            y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
        elif op == "open_loop":
            run_t = 10 * p["dt"]
            caller.both("open_loop",
                        lambda: kinds.open_loop(a, p, run_t),
                        lambda: kinds.open_loop(b, p, run_t))
        elif op == "n_steps":
            y, yd = caller.both(
                "n_steps_open_loop",
                lambda u, v: a.n_steps_open_loop(u, v, 3),
                lambda u, v: b.n_steps_open_loop(u, v, 3), y, yd)[:2]
            y, yd = exact_state(caller, p, y), caller.exact(yd)
        elif op == "set_weights":
            w = caller.exact(p["weights"].ravel() * rng.uniform(-1, 1))
            caller.both("set_weights", a.set_weights, b.set_weights, w)
        elif op == "imitate":
            T, Y = kinds.demonstration(rng, p)[:2]
            Y = np.array([exact_state(caller, p, v) for v in Y])
            if caller.form == "integer":
                for q, _ in kinds.ori_dims(p):
                    Y[:, q] = Y[0, q]
                T = np.arange(len(T)) * 2.0
            T = caller.exact(T)
            caller.both("imitate",
                        lambda t, z: a.imitate(t, z) and None,
                        lambda t, z: b.imitate(t, z) and None, T, Y)
            p["start_y"], p["goal_y"] = Y[0], Y[-1]
            for o in (a, b):
                o.configure(start_y=Y[0], start_yd=p["start_yd"],
                            goal_y=Y[-1])
                o.reset()
            y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    if kind != "mj":
        caller.both("open_loop", lambda: kinds.open_loop(a, p),
                    lambda: kinds.open_loop(b, p))
    if kind in kinds.DMP_KINDS:
        caller.both("get_weights", lambda: a.get_weights(),
                    lambda: b.get_weights())


def probabilistic(case):
    rng = case.rng
    n_dims, k = int(rng.integers(1, 4)), int(rng.integers(4, 9))
    caller = Caller(case)
    a, b = ProMP(n_dims, k), ProMP(n_dims, k)
    case.note(n_dims=n_dims, n_weights=k)
    mean, cov, scale = promps.distribution(rng, n_dims, k)
    if caller.form == "integer":
        mean = np.round(mean / scale * 10)
        L = np.round(rng.normal(size=cov.shape) * 3)
        cov = L.dot(L.T) + 5 * np.eye(len(mean))
    mean, cov = caller.exact(mean), caller.exact(cov)
    caller.both("from_weight_distribution",
                lambda m, c: a.from_weight_distribution(m, c) and None,
                lambda m, c: b.from_weight_distribution(m, c) and None,
                mean, cov)
    T = promps.times(rng)
    if caller.form == "integer":
        T = np.arange(len(T)) * 2.0
    T = caller.exact(T)
    names = ["mean_trajectory", "cov_trajectory", "var_trajectory",
             "mean_velocities", "cov_velocities", "var_velocities"]
    for n in names:
        caller.both(n, getattr(a, n), getattr(b, n), T)
    caller.both("sample_trajectories",
                lambda t: a.sample_trajectories(
                    t, 3, np.random.RandomState(1)),
                lambda t: b.sample_trajectories(
                    t, 3, np.random.RandomState(1)), T)
    w = caller.exact(rng.normal(size=n_dims * k) * 10)
    caller.both("trajectory_from_weights", a.trajectory_from_weights,
                b.trajectory_from_weights, T, w)
    t = caller.exact(np.arange(40.0))
    Y = caller.exact(rng.normal(size=(40, n_dims)) * 10)
    caller.both("weights", a.weights, b.weights, t, Y)

    y = caller.exact(rng.normal(size=n_dims) * 10)
    N = promps.spd(rng, n_dims)
    if caller.form == "integer":
        N = np.diag(np.arange(1.0, n_dims + 1))
    N = caller.exact(N)

    def condition(o):
        def f(u, C):
            c = o.condition_position(u, C, t=0.4, t_max=1.0)
            return c.mean_trajectory(T), c.cov_trajectory(T)
        return f

    def via(o):
        def f(t, u):
            c = via_points(o, t, u)
            return c.mean_trajectory(T), c.weight_mean, c.weight_cov
        return f

    caller.both("condition_position", condition(a), condition(b), y, N)
    ts = caller.exact([0.0, 1.0] if caller.form == "integer" else [0.1, 0.8])
    yv = caller.exact(10 * (rng.normal(size=(2, n_dims)) if n_dims > 1
                            else rng.normal(size=2)))
    caller.both("via_points", via(a), via(b), ts, yv)
    s = np.linspace(0, 1, 15)
    Ys = caller.exact(promps.demonstrations(rng, 3, 15, n_dims, 30.0, 0.3)(s))
    if caller.form == "integer":
        s = np.arange(15.0)
    Ts = caller.exact(np.array([s] * 3))
    caller.both("imitate",
                lambda t, z: a.imitate(t, z, n_iter=2) and None,
                lambda t, z: b.imitate(t, z, n_iter=2) and None, Ts, Ys)
    for n in names[:2]:
        caller.both(n, getattr(a, n), getattr(b, n), T)


def functions(case):
    rng = case.rng
    caller = Caller(case)
    n = int(rng.integers(1, 5))
    start, goal = caller.exact(rng.normal(size=(2, n)) * 10)
    caller.both("generate_minimum_jerk", generate_minimum_jerk,
                generate_minimum_jerk, start, goal)
    for _ in range(4):
        y, yd, o = caller.exact(rng.normal(size=(3, 2)) * 5)
        caller.both("obstacle_avoidance_acceleration_2d",
                    obstacle_avoidance_acceleration_2d,
                    obstacle_avoidance_acceleration_2d, y, yd, o)
        # the compiled version takes floats only
        fast = bool(rng.random() < 0.5) \
            and caller.form not in ("integer", "single")
        caller.both(
            "CouplingTermObstacleAvoidance2D",
            lambda a, b, c: CouplingTermObstacleAvoidance2D(
                c, fast=fast).coupling(a, b),
            lambda a, b, c: CouplingTermObstacleAvoidance2D(
                c, fast=fast).coupling(a, b), y, yd, o)
        y, yd, o = caller.exact(rng.normal(size=(3, 3)) * 5)
        caller.both("obstacle_avoidance_acceleration_3d",
                    obstacle_avoidance_acceleration_3d,
                    obstacle_avoidance_acceleration_3d, y, yd, o)
        caller.both(
            "CouplingTermObstacleAvoidance3D",
            lambda a, b, c: CouplingTermObstacleAvoidance3D(c).coupling(a, b),
            lambda a, b, c: CouplingTermObstacleAvoidance3D(c).coupling(a, b),
            y, yd, o)
    Y, Yd = caller.exact(rng.normal(size=(2, 4, 5, 2)) * 5)
    o = caller.exact(rng.normal(size=2) * 5)
    caller.both("obstacle_avoidance_acceleration_2d on a grid",
                obstacle_avoidance_acceleration_2d,
                obstacle_avoidance_acceleration_2d, Y, Yd, o)
    p = kinds.random_params(rng, "dmp", n_dims=2)
    dmp = kinds.make(p)
    caller.both(
        "potential_field_2d",
        lambda a: potential_field_2d(dmp, (-1, 1), (-2, 2), 4, a),
        lambda a: potential_field_2d(dmp, (-1, 1), (-2, 2), 4, a), o)


def chains(case):
    rng = case.rng
    caller = Caller(case)
    robot = robots.ur5()
    chain = Kinematics(robot.text).create_chain(
        robots.UR5_JOINTS, "ur5_base_link", "ur5_tool0")
    q = caller.exact(rng.uniform(-3, 3, size=6))
    Q = caller.exact(rng.uniform(-3, 3, size=(4, 6)))
    caller.both("forward", chain.forward, chain.forward, q)
    caller.both("forward_trajectory", chain.forward_trajectory,
                chain.forward_trajectory, Q)
    if caller.form == "integer":
        H = np.eye(4)
        H[:3, :3] = H[:3, rng.permutation(3)]
        H[0, :3] *= np.linalg.det(H)
        H[:3, 3] = 0, 1, 0
    else:
        H = caller.exact(chain.forward(q))
    q0 = caller.exact(q + rng.normal(size=6) * 0.2)
    caller.both("ee_pose_error", chain.ee_pose_error, chain.ee_pose_error,
                q0, H)
    if caller.form in ("single", "integer"):
        return  # the search amplifies rounding errors

    def error(q, A=np.copy(H)):
        return float(chain.ee_pose_error(np.copy(q), A) > 1e-2)

    def inverse(A, x):
        return error(chain.inverse(A, x))

    def local(A, x):
        return error(chain.local_inverse_with_random_restarts(
            A, x, 0.8, n_restarts=5, random_state=np.random.RandomState(3)))

    def trajectory(A, x):
        return tuple(error(q) for q in chain.inverse_trajectory(A, x))

    caller.both("inverse", inverse, inverse, H, q0)
    caller.both("local_inverse_with_random_restarts", local, local, H, q0)
    caller.both("inverse_trajectory", trajectory, trajectory,
                np.array([H, H]), q0)


def number(rng, x):
    """The same number in another type."""
    types = [float, np.float64]
    if x == round(x):
        types += [int, np.int64, np.int32]
    return types[rng.integers(len(types))](x)


def scalars(case):
    """Settings given as Python or NumPy integers or floats."""
    rng = case.rng
    kind = c05.KINDS[case.index % len(c05.KINDS)]
    p = c05.params(rng, kind)
    p["tau"] = float(rng.choice([0.5, 1.0, 2.0, 3.0, 4.0]))
    p["dt"] = float(rng.choice([1 / 32, 1 / 64]))
    p["int_dt"] = float(rng.choice([1 / 64, 1 / 256]))
    if kind in ("sd", "sdo"):
        p["k"] = float(rng.integers(1, 30))
        p["c"] = None if rng.random() < 0.3 else float(rng.integers(1, 9))
    elif kind != "mj":
        a = float(rng.choice([16.0, 20.0, 24.0]))
        p["alpha"], p["beta"] = a, a / 4
        if rng.random() < 0.4:
            p["alpha"] = np.full(p["n_vel"], a)
            p["beta"] = p["alpha"] / 4
    if p["p_gain"]:
        p["p_gain"] = 0.0625
    q = kinds.clone(p)
    for k in ("tau", "dt", "int_dt", "k", "c", "p_gain", "alpha", "beta"):
        if isinstance(q.get(k), float):
            q[k] = number(rng, q[k])
        elif isinstance(q.get(k), np.ndarray):
            form = ("list", "tuple", "integer")[rng.integers(3)]
            if form in ("list", "tuple"):
                q[k] = (list if form == "list" else tuple)(
                    number(rng, v) for v in q[k])
            elif np.all(q[k] == np.round(q[k])):
                q[k] = dress(rng, q[k], form)
    for k in ("n_dims", "n_weights"):
        if k in q and rng.random() < 0.5:
            q[k] = np.int64(q[k])
    case.note(types={k: type(v).__name__ for k, v in q.items()},
              **kinds.describe(p))
    a, b = kinds.construct(q), kinds.construct(p)
    for o in (a, b):
        kinds.set_weights(o, p)
        kinds.configure(o, p)
    caller = Caller(case, ["strided"])
    if kind in kinds.DMP_KINDS and rng.random() < 0.5:
        tau = float(rng.choice([1.0, 2.0, 1.5]))
        a.execution_time_ = number(rng, tau)
        b.execution_time_ = tau
        p["tau"] = tau
    if kind in kinds.DMP_KINDS and rng.random() < 0.5:
        T, Y = kinds.demonstration(rng, p)[:2]
        r = float(rng.choice([0.0, 1.0, 0.25]))
        a.imitate(T, Y, regularization_coefficient=number(rng, r))
        b.imitate(T, Y, regularization_coefficient=r)
        caller.both("weights", a.get_weights, b.get_weights)
    if kind != "mj":
        run_t = float(rng.choice([0.5, 1.0, 2.0]))
        caller.both("open_loop",
                    lambda: kinds.open_loop(a, p, number(rng, run_t)),
                    lambda: kinds.open_loop(b, p, run_t))
    if rng.random() < 0.3 and kind != "mj":
        t = float(rng.choice([0.0, 0.25, 1.0]))
        a.configure(t=number(rng, t))
        b.configure(t=t)
    A, B = [kinds.rollout(o, p, 12) for o in (a, b)]
    case.close(A[0], B[0], 1e-9, "states")
    case.close(A[1], B[1], 1e-9, "velocities")
    case.event("settings", 8)


GROUPS = [
    Group("histories", histories, 480, 4800),
    Group("probabilistic", probabilistic, 100, 1000),
    Group("functions", functions, 60, 600),
    Group("chains", chains, 40, 300),
    Group("scalars", scalars, 320, 3200),
]
