"""Arguments are not modified and results are not shared."""
import numpy as np

from movement_primitives.data import (
    generate_1d_trajectory_distribution, generate_minimum_jerk)
from movement_primitives.dmp import (
    CouplingTermDualCartesianDistance, CouplingTermDualCartesianPose,
    CouplingTermDualCartesianTrajectory, CouplingTermObstacleAvoidance2D,
    CouplingTermObstacleAvoidance3D, CouplingTermPos1DToPos1D,
    CouplingTermPos3DToPos3D, obstacle_avoidance_acceleration_2d,
    obstacle_avoidance_acceleration_3d)
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.promp import ProMP, via_points

from .. import kinds, ref
from ..core import Group
from . import c05, promps

PROPERTY = "C24"
TECHNIQUE = ("runtime aliasing monitor: a caller that destroys all arguments "
             "and results after use, compared with one that does not")
RULE = ("Random histories of all operations with array arguments on all "
        "classes; every argument array is compared with a copy after the "
        "call, later overwritten, every result is kept and compared with a "
        "copy at the end or overwritten.")
ASSUMPTIONS = ["arrays are reached through arguments and results, not "
               "through attributes"]


class Caller:
    """Performs the same operation for two primitives."""

    def __init__(self, case):
        self.case = case
        self.kept = []

    def both(self, what, wild, tame, *arrays):
        """Results of wild(*copies) and tame(*copies) are the same."""
        case, rng = self.case, self.case.rng
        args = [np.copy(a) for a in arrays]
        want = tame(*[np.copy(a) for a in arrays])
        got = wild(*args)
        for a, b in zip(args, arrays):
            case.equal(a, b, "%s: argument modified" % what)
        got = got if isinstance(got, tuple) else (got,)
        want = want if isinstance(want, tuple) else (want,)
        for g, w in zip(got, want):
            if not isinstance(g, np.ndarray):
                continue
            case.equal(g, np.copy(w), "%s: result" % what)
            for a in args:
                case.check(not np.shares_memory(a, g),
                           "%s: result is the argument" % what)
            if rng.random() < 0.5:
                self.kept.append((what, g, np.copy(g)))
            else:
                self.destroy(g)
        for a in args:
            if rng.random() < 0.7:
                self.destroy(a)
        case.event("calls")
        return [np.copy(w) for w in want if isinstance(w, np.ndarray)]

    def destroy(self, a):
        if not a.flags.writeable:
            return
        a[...] = 77 if a.dtype.kind in "iu" else np.nan
        self.case.event("arrays_overwritten")

    def finish(self):
        for what, g, copy in self.kept:
            self.case.equal(g, copy, "%s: earlier result changed" % what)


def construct(p):
    """Also returns arrays that were passed to the constructor."""
    q = kinds.clone(p)
    arrays = [q[k] for k in ("alpha", "beta")
              if isinstance(q.get(k), np.ndarray)]
    copies = [np.copy(a) for a in arrays]
    return kinds.construct(q), arrays, copies


def histories(case):
    rng = case.rng
    kind = c05.KINDS[case.index % len(c05.KINDS)]
    p = c05.params(rng, kind)
    if p["alpha"] is not None and rng.random() < 0.5:
        p["alpha"], p["beta"] = kinds.full_gains(p)
    case.note(**kinds.describe(p))
    caller = Caller(case)
    a, arrays, copies = construct(p)
    b = construct(p)[0]
    for x, y in zip(arrays, copies):
        case.equal(x, y, "constructor: argument modified")
        caller.destroy(x)

    def configure(names):
        def f(obj):
            def g(*values):
                obj.configure(**dict(zip(names, values)))
            return g
        return f

    names = ["start_y", "start_yd"]
    if kind != "sf":
        names.append("goal_y")
    if kind == "fv":
        names.append("goal_yd")
    cfg = configure(names)
    caller.both("configure", cfg(a), cfg(b), *[p[n] for n in names])
    if kind in kinds.DMP_KINDS:
        caller.both("set_weights", a.set_weights, b.set_weights,
                    p["weights"].ravel())
    elif kind == "sf":
        for o in (a, b):
            kinds.set_weights(o, p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    ops = ["step"] * 6 + ["configure", "reset"]
    if kind != "mj":
        ops += ["open_loop", "n_steps"]
    if kind in kinds.DMP_KINDS:
        ops += ["get_weights", "set_weights", "imitate"]
    used = 0
    for _ in range(25):
        op = str(rng.choice(ops))
        if op == "step":
            if kind == "mj" and used >= round(p["tau"] / p["dt"]):
                continue
            used += 1
            # the integrator may get the caller's arrays
            y, yd = caller.both(
                "step", lambda u, v: kinds.step(a, p, u, v),
                lambda u, v: kinds.step(b, p, u, v), y, yd)
        elif op == "reset":
            a.reset()
            b.reset()
            used = 0
            y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
        elif op == "configure":
            q = kinds.random_params(rng, "dmp" if kind == "mj" else kind,
                                    n_dims=p["n_dims"])
            for n in names:
                p[n] = q[n]
            caller.both("configure", cfg(a), cfg(b), *[p[n] for n in names])
            a.reset()
            b.reset()
            used = 0
            y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
        elif op == "open_loop":
            run_t = 10 * p["dt"]
            caller.both("open_loop",
                        lambda: kinds.open_loop(a, p, run_t),
                        lambda: kinds.open_loop(b, p, run_t))
        elif op == "n_steps":
            r = caller.both("n_steps_open_loop",
                            lambda u, v: a.n_steps_open_loop(u, v, 3),
                            lambda u, v: b.n_steps_open_loop(u, v, 3), y, yd)
            y, yd = r[:2]
        elif op == "get_weights":
            caller.both("get_weights", lambda: a.get_weights(),
                        lambda: b.get_weights())
        elif op == "set_weights":
            w = p["weights"].ravel() * rng.uniform(-1, 1)
            caller.both("set_weights", a.set_weights, b.set_weights, w)
        elif op == "imitate":
            T, Y = kinds.demonstration(
                rng, p, t0=float(rng.choice([0.0, 0.7, -2.0])))[:2]
            caller.both("imitate",
                        lambda t, z: a.imitate(t, z) and None,
                        lambda t, z: b.imitate(t, z) and None, T, Y)
    if kind != "mj":
        caller.both("open_loop", lambda: kinds.open_loop(a, p),
                    lambda: kinds.open_loop(b, p))
    if kind in kinds.DMP_KINDS:
        caller.both("get_weights", lambda: a.get_weights(),
                    lambda: b.get_weights())
    caller.finish()


def separate(case):
    """Primitives made from the same arrays are independent."""
    rng = case.rng
    kind = c05.KINDS[case.index % len(c05.KINDS)]
    p = c05.params(rng, kind)
    case.note(**kinds.describe(p))
    n = 7

    def trace(o):
        return kinds.rollout(o, p, n)

    alone = trace(kinds.make(p))
    # same arrays for both
    kw = dict(start_y=p["start_y"], start_yd=p["start_yd"],
              goal_y=p["goal_y"])
    if kind == "sf":
        kw.pop("goal_y")
    if kind == "fv":
        kw["goal_yd"] = p["goal_yd"]
    objs = []
    w = p["weights"].ravel()
    for _ in range(2):
        o = kinds.construct(p)
        if kind in kinds.DMP_KINDS:
            o.set_weights(w)
        else:
            kinds.set_weights(o, p)
        o.configure(**kw)
        objs.append(o)
    q = c05.params(rng, kind)
    states = [(np.copy(p["start_y"]), np.copy(p["start_yd"])) for _ in objs]
    Y = [[s[0]] for s in states]
    # an array that is passed on from one to the other
    for i in range(n):
        for j in rng.permutation(2):
            states[j] = kinds.step(objs[j], p, *states[j])
            Y[j].append(np.copy(states[j][0]))
    for j in range(2):
        case.equal(np.array(Y[j]), alone[0], "interleaved execution")
    # changes of one do not reach the other
    before = trace_after_reset(objs[1], p, n)
    objs[0].configure(start_y=p["start_y"] * 0 + np.roll(p["start_y"], 1))
    if kind in kinds.DMP_KINDS:
        objs[0].set_weights(-2.0 * w)
        T, Z = kinds.demonstration(rng, p)[:2]
        objs[0].imitate(T, Z)
    after = trace_after_reset(objs[1], p, n)
    case.equal(after, before, "change of other primitive")
    # start and goal may be one array
    if kind not in ("sf",):
        o = kinds.construct(p)
        s = np.copy(p["start_y"])
        o.configure(start_y=s, goal_y=s, start_yd=0 * p["start_yd"])
        kinds.rollout(o, kinds.clone(p, start_y=np.copy(s),
                                     start_yd=0 * p["start_yd"]), n)
        case.equal(s, p["start_y"], "shared start and goal changed")
        case.equal(np.array(o.goal_y), p["start_y"], "goal moves")
        case.equal(np.array(o.start_y), p["start_y"], "start moves")
    # step with arrays given by the object itself
    o = kinds.make(p)
    y, yd = kinds.step(o, p, o.start_y, o.start_yd)
    case.equal(np.array(o.start_y), p["start_y"], "start overwritten")
    case.equal(np.array(o.start_yd), p["start_yd"], "velocity overwritten")
    case.equal(y, alone[0][1], "step from own start")
    case.event("primitives", 3)


def trace_after_reset(o, p, n):
    o.reset()
    return kinds.rollout(o, p, n)[0]


def probabilistic(case):
    rng = case.rng
    n_dims, k = int(rng.integers(1, 4)), int(rng.integers(4, 9))
    caller = Caller(case)
    a, b = ProMP(n_dims, k), ProMP(n_dims, k)
    case.note(n_dims=n_dims, n_weights=k)
    mean, cov, scale = promps.distribution(rng, n_dims, k)
    caller.both("from_weight_distribution",
                lambda m, c: a.from_weight_distribution(m, c) and None,
                lambda m, c: b.from_weight_distribution(m, c) and None,
                mean, cov)
    T = promps.times(rng)
    names = ["mean_trajectory", "cov_trajectory", "var_trajectory",
             "mean_velocities", "cov_velocities", "var_velocities"]
    y = rng.normal(size=n_dims)
    N = promps.spd(rng, n_dims)

    def sample(o):
        return lambda t: o.sample_trajectories(
            t, 3, np.random.RandomState(1))

    def condition(o):
        def f(u, C):
            c = o.condition_position(u, C, t=0.4, t_max=1.0)
            if o is a and rng.random() < 0.5:
                u[:], C[:] = 5.0, 5.0
            return c.mean_trajectory(T), c.cov_trajectory(T)
        return f

    def via(o):
        def f(t, u):
            c = via_points(o, t, u)
            return c.mean_trajectory(T), c.weight_mean, c.weight_cov
        return f

    for _ in range(14):
        r = rng.integers(7)
        if r <= 2:
            n = names[rng.integers(len(names))]
            caller.both(n, getattr(a, n), getattr(b, n), T)
        elif r == 3:
            caller.both("sample_trajectories", sample(a), sample(b), T)
        elif r == 4:
            w = rng.normal(size=n_dims * k)
            caller.both("trajectory_from_weights", a.trajectory_from_weights,
                        b.trajectory_from_weights, T, w)
            t = np.linspace(0, 3, 40) + rng.choice([0.0, 0.5])
            Y = rng.normal(size=(40, n_dims))
            caller.both("weights", a.weights, b.weights, t, Y)
        elif r == 5:
            c, d = np.copy(y), np.copy(N)
            condition_both(case, caller, a, b, c, d, T)
            ts = np.array([0.1, 0.8])
            yv = rng.normal(size=(2, n_dims)) if n_dims > 1 \
                else rng.normal(size=2)
            caller.both("via_points", via(a), via(b), ts, yv)
        elif r == 6:
            s = np.linspace(0, 1, 15)
            Ts = np.array([s] * 3) + rng.choice([0.0, 0.5])
            Ys = promps.demonstrations(rng, 3, 15, n_dims, 1.0, 0.3)(s)
            caller.both("imitate",
                        lambda t, z: a.imitate(t, z, n_iter=2) and None,
                        lambda t, z: b.imitate(t, z, n_iter=2) and None,
                        Ts, Ys)
    for n in names:
        caller.both(n, getattr(a, n), getattr(b, n), T)
    caller.finish()


def condition_both(case, caller, a, b, y, N, T):
    made = []

    def f(o):
        def g(u, C):
            c = o.condition_position(u, C, t=0.4, t_max=1.0)
            made.append(c)
            return c.weight_mean, c.weight_cov
        return g
    caller.both("condition_position", f(a), f(b), y, N)
    # results may have been overwritten, the original must not notice
    case.equal(a.mean_trajectory(T), b.mean_trajectory(T),
               "original after use of the conditioned ProMP")


def functions(case):
    """Functions without state do not modify arguments."""
    rng = case.rng
    caller = Caller(case)
    x, y, z = rng.normal(size=(3, 2)), rng.normal(size=(3, 2)), \
        rng.normal(size=2)
    case.note(z=z)

    def twice(what, f, *arrays):
        caller.both(what, f, f, *arrays)
    twice("obstacle_avoidance_acceleration_2d",
          obstacle_avoidance_acceleration_2d, x, y, z)
    twice("obstacle_avoidance_acceleration_2d",
          obstacle_avoidance_acceleration_2d, x[0], y[0], z)
    twice("obstacle_avoidance_acceleration_3d",
          obstacle_avoidance_acceleration_3d, rng.normal(size=3),
          rng.normal(size=3), rng.normal(size=3))
    twice("generate_minimum_jerk", generate_minimum_jerk,
          rng.normal(size=3), rng.normal(size=3))
    np.random.seed(3)
    before = np.random.get_state()[1].tolist()
    for rs in (None, 5):
        twice("generate_1d_trajectory_distribution",
              lambda: generate_1d_trajectory_distribution(
                  3, 20, random_state=None if rs is None
                  else np.random.RandomState(rs)))
    case.check(before == np.random.get_state()[1].tolist(),
               "global random state used")
    # a potential field leaves the DMP as it was
    p = kinds.random_params(rng, "dmp", n_dims=2)
    a, b = kinds.make(p), kinds.make(p)
    n = int(rng.integers(0, 6))
    s = t = (np.copy(p["start_y"]), np.copy(p["start_yd"]))
    for _ in range(n):
        s, t = kinds.step(a, p, *s), kinds.step(b, p, *t)
    obstacle = rng.normal(size=2) if rng.random() < 0.5 else None
    copy = None if obstacle is None else np.copy(obstacle)
    if n:
        potential_field_2d(a, (-1, 1), (-2, 2), 4, obstacle)
    if obstacle is not None:
        case.equal(obstacle, copy, "obstacle changed")
    for _ in range(5):
        s, t = kinds.step(a, p, *s), kinds.step(b, p, *t)
        case.equal(s[0], t[0], "step after potential field")
        case.equal(s[1], t[1], "velocity after potential field")
    # couplings do not change what they are given
    c = CouplingTermObstacleAvoidance2D(np.array([0.3, 0.4]))
    twice("coupling", lambda u, v: c.coupling(u, v), x[0], y[0])
    lf = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0)][rng.integers(3)]
    twice("CouplingTermObstacleAvoidance3D",
          lambda o, u, v: CouplingTermObstacleAvoidance3D(o).coupling(u, v),
          *rng.normal(size=(3, 3)))
    twice("CouplingTermPos1DToPos1D", lambda f, u, v:
          CouplingTermPos1DToPos1D(0.5, f).coupling(u, v), np.array(lf),
          *rng.normal(size=(2, 2)))
    twice("CouplingTermPos3DToPos3D", lambda d, f, u, v:
          CouplingTermPos3DToPos3D(d, f).coupling(u, v),
          rng.normal(size=3), np.array(lf), *rng.normal(size=(2, 6)))
    n = int(rng.integers(3, 8))
    Y = rng.normal(size=(n, 14))
    for q in (slice(3, 7), slice(10, 14)):
        Y[:, q] /= np.linalg.norm(Y[:, q], axis=1)[:, np.newaxis]
    twice("CouplingTermDualCartesianDistance", lambda f, u, v:
          CouplingTermDualCartesianDistance(0.5, f).coupling(u, v),
          np.array(lf), Y[0], rng.normal(size=12))
    D = np.eye(4)
    D[:3, :3] = ref.qmat(Y[1, 3:7])
    D[:3, 3] = rng.normal(size=3)
    twice("CouplingTermDualCartesianPose", lambda d, f, u, v:
          CouplingTermDualCartesianPose(d, f).coupling(u, v), D,
          np.array(lf), Y[0], rng.normal(size=12))

    def follow(offset, f, T, Y, u, v):
        ct = CouplingTermDualCartesianTrajectory(offset, f, 0.1, verbose=0)
        ct.imitate(T, Y)
        return np.hstack([np.hstack(ct.coupling(u, v)) for _ in range(3)])
    offset = np.zeros(7)
    offset[:3] = rng.normal(size=3)
    twice("CouplingTermDualCartesianTrajectory", follow, offset,
          np.array(lf), np.arange(n) * 0.1, Y, Y[0], rng.normal(size=12))
    caller.finish()


GROUPS = [
    Group("histories", histories, 320, 4000),
    Group("separate", separate, 160, 2000),
    Group("probabilistic", probabilistic, 120, 1500),
    Group("functions", functions, 80, 800),
]
