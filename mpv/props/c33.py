"""Primitives do not interfere, in any interleaving or thread."""
import sys
import threading

import numpy as np

from movement_primitives.data import generate_1d_trajectory_distribution
from movement_primitives.dmp import (
    CouplingTermDualCartesianDistance, CouplingTermDualCartesianPose,
    CouplingTermObstacleAvoidance2D, CouplingTermObstacleAvoidance3D,
    CouplingTermPos1DToPos1D, CouplingTermPos3DToPos3D)
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.kinematics import Kinematics
from movement_primitives.promp import via_points

from .. import kinds, peer
from ..core import Group
from . import c05, promps, robots

PROPERTY = "C33"
TECHNIQUE = ("runtime schedule monitor: random interleavings and threads "
             "with forced switches, compared bit by bit with undisturbed "
             "runs and with another process")
RULE = ("Each actor owns one primitive, ProMP, kinematic chain or generator "
        "and a random history of operations that depends on its seed only. "
        "Traces of 2 to 8 actors are recorded alone, interleaved, on threads "
        "that switch all the time and in another process.")
ASSUMPTIONS = [
    "an object is used by one thread",
    "chains on different threads do not share one Kinematics object",
    "same machine, one BLAS thread"]


# actors: generators that yield what they observe ----------------------------

def coupling(rng, p):
    """Coupling term of a primitive or None."""
    kind, n = p["kind"], p["n_dims"]
    r = rng.random()
    if kind == "dmp" and n == 2 and r < 0.7:
        if r < 0.35:
            return CouplingTermPos1DToPos1D(
                rng.normal(), (float(r < 0.2), 1.0), 0)
        return CouplingTermObstacleAvoidance2D(
            rng.normal(size=2) * p["scale"], fast=bool(r < 0.5))
    if kind == "dmp" and n == 3 and r < 0.7:
        return CouplingTermObstacleAvoidance3D(rng.normal(size=3) * p["scale"])
    if kind == "dmp" and n == 6 and r < 0.7:
        return CouplingTermPos3DToPos3D(
            rng.normal(size=3) * p["scale"], (1.0, 0.0))
    if kind == "dual" and r < 0.3:
        return CouplingTermDualCartesianDistance(
            abs(rng.normal()) * p["scale"], (1.0, 0.0), 0)
    if kind == "dual" and r < 0.6:
        H = np.eye(4)
        H[:3, 3] = rng.normal(size=3)
        return CouplingTermDualCartesianPose(
            H, (1.0, 0.0), couple_position=True, couple_orientation=True,
            verbose=0)
    return None


def primitive(rng, n_ops, kind):
    p = c05.params(rng, kind)
    if kind == "dmp" and p["n_dims"] not in (2, 3, 6) and rng.random() < 0.5:
        p = kinds.random_params(rng, kind, n_dims=int(rng.choice([2, 3, 6])))
    obj = kinds.make(p)
    c = coupling(rng, p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    yield (y, yd)
    ops = ["step", "step", "step", "goal", "reset"]
    if kind != "mj":
        ops += ["open_loop"]
    if kind in kinds.DMP_KINDS:
        ops += ["weights", "imitate", "tau"]
    left = int(round(p["tau"] / p["dt"])) - 2
    for _ in range(n_ops):
        op = ops[rng.integers(len(ops))]
        if op == "step":
            for _ in range(int(rng.integers(1, 4))):
                if kind == "mj" and left <= 0:
                    break
                y, yd = kinds.step(obj, p, y, yd, c)
                left -= 1
                yield (np.copy(y), np.copy(yd))
        elif op == "goal":
            g = kinds.random_state(rng, p, p["scale"])
            for q, _ in kinds.ori_dims(p):
                g[q] = kinds.rot_by(rng, p["start_y"][q], rng.uniform(0, 2.0))
            obj.configure(goal_y=g)
        elif op == "reset":
            obj.reset()
            y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
            left = int(round(p["tau"] / p["dt"])) - 2
        elif op == "open_loop":
            yield kinds.open_loop(obj, p, p["tau"] * rng.uniform(0.1, 0.6), c)
        elif op == "weights":
            w = p["weights"] * rng.uniform(-1.0, 1.0)
            obj.set_weights(w.ravel())
            yield (np.copy(obj.get_weights()),)
        elif op == "imitate":
            T, Y = kinds.demonstration(rng, p, n=60, tau=p["tau"])
            obj.imitate(T, Y, 1e-6)
            yield (np.copy(obj.get_weights()),)
            obj.set_weights(p["weights"].ravel())
        elif op == "tau":
            obj.execution_time_ = p["tau"] * rng.uniform(0.9, 1.1)
            obj.reset()
            y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
        yield (y, yd)


def promp(rng, n_ops):
    obj, mean, cov, scale = promps.random_promp(rng)
    T = promps.times(rng, 20, 1.0)
    n = obj.n_dims
    for _ in range(n_ops):
        r = rng.random()
        if r < 0.2:
            Ts = np.tile(T, (4, 1))
            Ys = promps.demonstrations(rng, 4, len(T), n, scale, 0.3)(T)
            obj.imitate(Ts, Ys, n_iter=8)
            yield (obj.weight_mean, obj.weight_cov)
            obj.from_weight_distribution(mean, cov)
        elif r < 0.4:
            c = obj.condition_position(
                rng.normal(size=n) * scale, y_cov=0.1 * scale ** 2,
                t=rng.random(), t_max=1.0)
            yield (c.mean_trajectory(T), c.cov_trajectory(T))
        elif r < 0.6:
            state = np.random.RandomState(rng.integers(1 << 30))
            yield (obj.sample_trajectories(T, 2, state),)
        elif r < 0.7:
            q = promps.random_promp(rng, 1)[0]
            yield (via_points(
                q, np.array([0.5]), np.array([0.1]),
                np.array([0.3])).mean_trajectory(T),)
        else:
            yield (obj.mean_trajectory(T), obj.mean_velocities(T),
                   obj.var_trajectory(T), obj.var_velocities(T))


def chain(rng, n_ops):
    robot = robots.ur5() if rng.random() < 0.3 else robots.random_robot(rng)
    base, ee, names = robots.random_chain(rng, robot)
    c = Kinematics(robot.text).create_chain(names, base, ee)
    for i in range(n_ops):
        q = robots.random_values(rng, robot, names)
        H = c.forward(q)
        yield (H,)
        if i % 4 == 1 and len(names) > 0:
            state = np.random.RandomState(rng.integers(1 << 30))
            yield (c.inverse_with_random_restarts(
                H, n_restarts=2, random_state=state),)


def generator(rng, n_ops):
    for _ in range(n_ops):
        yield generate_1d_trajectory_distribution(
            3, int(rng.integers(5, 30)),
            random_state=np.random.RandomState(rng.integers(1 << 30)))
        yield generate_1d_trajectory_distribution(2, 9)


def field(rng, n_ops):
    p = kinds.random_params(rng, "dmp", n_dims=2)
    dmp = kinds.make(p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    for i in range(n_ops // 3 + 1):
        o = rng.normal(size=2) * p["scale"] if rng.random() < 0.5 else None
        lo = rng.normal(size=2) - 2.0
        yield potential_field_2d(
            dmp, (lo[0], lo[0] + 2.0), (lo[1], lo[1] + 3.0), 3, o)
        y, yd = dmp.step(y, yd)


ACTORS = ["dmp", "dmp", "fv", "cart", "cart", "dual", "dual", "sf", "sd",
          "sdo", "mj", "promp", "promp", "chain", "generator", "field"]
OTHERS = {"promp": promp, "chain": chain, "generator": generator,
          "field": field}


def actor(name, seed, n_ops):
    rng = np.random.default_rng(seed)
    if name in OTHERS:
        return OTHERS[name](rng, n_ops)
    return primitive(rng, n_ops, name)


def copies(observation):
    return [np.array(o, dtype=float) for o in observation]


def trace(name, seed, n_ops):
    """Undisturbed run. (also called in another process)"""
    return [copies(o) for o in actor(name, seed, n_ops)]


def cast(case):
    rng = case.rng
    n = int(rng.integers(2, 9))
    names = [ACTORS[i] for i in rng.integers(len(ACTORS), size=n)]
    if rng.random() < 0.3:  # same class
        names = names[:1] * n
    seeds = rng.integers(1 << 30, size=n).tolist()
    n_ops = int(rng.integers(4, 16))
    case.note(actors=names, seeds=seeds, n_ops=n_ops)
    return list(zip(names, seeds)), n_ops


def compare(case, got, want, what):
    case.check(len(got) == len(want), what + ": number of observations",
               got=len(got), want=len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        for x, y in zip(a, b):
            case.check(x.shape == y.shape and np.array_equal(
                x, y, equal_nan=True), what, observation=i, got=x, want=y)
            case.seen(x)
    case.event("observations", len(got))


def random_state():
    s = np.random.get_state()
    return s[1].copy(), s[2:]


def same_state(a, b):
    return np.array_equal(a[0], b[0]) and a[1] == b[1]


def interleaved(case):
    actors, n_ops = cast(case)
    np.random.seed(case.index)
    before = random_state()
    alone = [trace(name, seed, n_ops) for name, seed in actors]
    case.check(same_state(before, random_state()),
               "global random state is changed")
    np.random.seed(case.index + 5)
    before = random_state()
    rng = case.rng
    running = {}
    waiting = list(range(len(actors)))
    rng.shuffle(waiting)
    got = [[] for _ in actors]
    order = []
    while running or waiting:
        if waiting and (not running or rng.random() < 0.3):
            i = waiting.pop()
            running[i] = actor(*actors[i], n_ops)
        i = list(running)[rng.integers(len(running))]
        try:
            got[i].append(copies(next(running[i])))
            order.append(i)
        except StopIteration:
            del running[i]
    case.event("switches", int(np.count_nonzero(np.diff(order))))
    for i, (name, _) in enumerate(actors):
        compare(case, got[i], alone[i], "%s interleaved" % name)
    case.check(same_state(before, random_state()),
               "global random state is changed")


def threads(case):
    actors, n_ops = cast(case)
    alone = [trace(name, seed, n_ops) for name, seed in actors]
    got = [None] * len(actors)
    barrier = threading.Barrier(len(actors))

    def work(i):
        barrier.wait()
        try:
            got[i] = trace(*actors[i], n_ops)
        except Exception as e:  # reported below
            got[i] = e

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,))
              for i in range(len(actors))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    case.event("threads", len(ts))
    for i, (name, _) in enumerate(actors):
        case.check(not isinstance(got[i], Exception),
                   "%s on a thread: exception" % name, error=repr(got[i]))
        compare(case, got[i], alone[i], "%s on a thread" % name)


def processes(case):
    """Same results in a process with another history and hash seed."""
    actors, n_ops = cast(case)
    p = peer.peer("normal", env={"PYTHONHASHSEED": "77"})
    for name, seed in actors:
        compare(case, p.call("mpv.props.c33:trace", name, seed, n_ops),
                trace(name, seed, n_ops), "%s in another process" % name)
        compare(case, trace(name, seed, n_ops), trace(name, seed, n_ops),
                "%s repeated" % name)


# siblings: primitives that differ in one setting only -----------------------

def varied(rng, p, what):
    """Settings of a sibling, and what it is configured with afterwards."""
    q, late = kinds.clone(p), {}
    f = rng.uniform(1.05, 1.3)
    if what in ("start_y", "goal_y", "start_yd", "goal_yd"):
        q[what] = np.array(p[what])
        q[what][rng.integers(3 if p["kind"] in ("cart", "dual") else 1)] \
            += 0.3 * p["scale"] / (1.0 if what.endswith("y") else p["tau"])
    elif what in ("start_ydd", "goal_ydd"):
        late[what] = rng.normal(size=p["n_vel"]) * p["scale"] / p["tau"] ** 2
    elif what in ("alpha", "beta"):
        if p[what] is not None:
            q[what] = np.array(p[what]) / f
    elif what == "weights":
        q["weights"] = p["weights"] * f
        if p["kind"] == "sf":
            q["viapoints"] = p["viapoints"] * f
    elif what == "smooth":
        q["smooth"] = not p["smooth"]
    elif what in ("k", "c"):
        if p.get(what) is not None:
            q[what] = p[what] / f
    elif what in ("dt", "int_dt"):
        q[what] = p[what] / f
    elif what == "tau":
        q["tau"] = p["tau"] * f
    return q, late


VARIED = ["start_y", "goal_y", "start_yd", "goal_yd", "start_ydd",
          "goal_ydd", "alpha", "beta", "weights", "smooth", "k", "c", "dt",
          "int_dt", "tau"]


def sibling(kind, seed, what):
    """What is observed of a primitive that differs in one setting.

    Also called in another process, that sees one of the siblings only.
    """
    rng = np.random.default_rng(seed)
    p = c05.params(rng, kind)
    p, late = varied(rng, p, what)
    obj = kinds.make(p)
    if late:
        obj.configure(**late)
    n = max(min(int(p["tau"] / p["dt"]) - 2, 8), 1)
    out = list(kinds.rollout(obj, p, n))
    if kind != "mj":
        out += list(kinds.open_loop(obj, p, 0.5 * p["tau"]))
    if kind in kinds.DMP_KINDS:
        rng = np.random.default_rng(seed)
        T, Y = kinds.demonstration(rng, p, n=40, tau=p["tau"])
        obj.imitate(T, Y, 1e-6)
        out.append(np.copy(obj.get_weights()))
    return [copies(out)]


def sibling_promp(seed, what):
    rng = np.random.default_rng(seed)
    obj, mean, cov, scale = promps.random_promp(rng)
    T = promps.times(rng, 20)
    y, v, t = rng.normal(size=obj.n_dims) * scale, 0.1 * scale ** 2, 0.4
    if what == "mean":
        obj.from_weight_distribution(mean * 1.1, cov)
    elif what == "cov":
        obj.from_weight_distribution(mean, cov * 1.2)
    elif what == "times":
        T[1:-1] = T[-1] * (T[1:-1] / T[-1]) ** 1.3
    elif what == "y":
        y *= 1.3
    elif what == "v":
        v *= 2.0
    elif what == "t":
        t = 0.7
    elif what == "t_max":
        T = T * 1.5
    end = T[-1]
    c = obj.condition_position(y, y_cov=v, t=t * end, t_max=end)
    state = np.random.RandomState(seed % 1000)
    return [copies((
        obj.mean_trajectory(T), obj.cov_trajectory(T), obj.var_trajectory(T),
        obj.mean_velocities(T), obj.cov_velocities(T), obj.var_velocities(T),
        obj.sample_trajectories(T, 2, state), c.weight_mean, c.weight_cov,
        c.mean_trajectory(T), obj.weights(T, obj.mean_trajectory(T))))]


def sibling_chain(seed, what):
    rng = np.random.default_rng(seed)
    robot = robots.random_robot(rng)
    base, ee, names = robots.random_chain(rng, robot)
    q = robots.random_values(rng, robot, names)
    chain = Kinematics(robot.text).create_chain(names, base, ee)
    if what == "near":
        q = q + 1e-7
    elif what == "value":
        q = robots.random_values(rng, robot, names)
    elif what == "frames":
        base, ee = ee, base
        chain = Kinematics(robot.text).create_chain(names, base, ee)
    elif what == "joints":
        names, q = names[::-1], q[::-1]
        chain = Kinematics(robot.text).create_chain(names, base, ee)
    elif what == "fewer":
        names, q = names[1:], q[1:]
        chain = Kinematics(robot.text).create_chain(names, base, ee)
    H = chain.forward(q)
    out = [H, chain.joint_limits, chain.forward_trajectory([q, q])]
    if names:
        out.append(chain.inverse(H, 0.9 * np.asarray(q)))
        out.append([chain.ee_pose_error(q, np.eye(4))])
    return [copies(out)]


def alike(kind, seed, what):
    if kind == "promp":
        return sibling_promp(seed, what)
    if kind == "chain":
        return sibling_chain(seed, what)
    return sibling(kind, seed, what)


def siblings(case):
    """The presence of similar objects does not matter."""
    rng = case.rng
    kind = ["dmp", "fv", "cart", "dual", "sf", "sd", "sdo", "mj", "fv",
            "promp", "chain"][case.index % 11]
    seed = int(rng.integers(1 << 30))
    if kind == "promp":
        others = ["mean", "cov", "times", "y", "v", "t", "t_max"]
    elif kind == "chain":
        others = ["near", "value", "frames", "joints", "fewer"]
    else:
        others = list(VARIED)
    rng.shuffle(others)
    want = peer.peer("normal").call("mpv.props.c33:alike", kind, seed, None)
    case.note(kind=kind, actor=seed, siblings=others)
    for what in others:
        alike(kind, seed, what)
        case.event("siblings")
    compare(case, alike(kind, seed, None), want,
            "%s after similar ones" % kind)
    case.seen([seed])


GROUPS = [
    Group("siblings", siblings, 66, 1100),
    Group("interleaved", interleaved, 100, 1500),
    Group("threads", threads, 80, 1200),
    Group("processes", processes, 30, 400),
]
