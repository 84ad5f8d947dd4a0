"""Inverse kinematics returns admissible joints and honest errors."""
import numpy as np

from movement_primitives.kinematics import Kinematics

from .. import kinds
from ..core import Group, silence
from . import robots

PROPERTY = "C20"
TECHNIQUE = ("runtime monitor of bounds, reported errors, accuracy and "
             "determinism of inverse kinematics against independent "
             "kinematics")
RULE = ("Random robots and the shipped UR5, reachable and unreachable poses, "
        "half turns, all solvers, weights, bounds, intervals, restarts and "
        "trajectories.")
ASSUMPTIONS = ["all movable joints between two frames belong to the chain"]
SOLVERS = ["SLSQP", "L-BFGS-B", "COBYLA"]


class Arm:
    def __init__(self, rng, movable=True):
        while True:
            if rng.random() < 0.4:
                self.robot = robots.ur5()
                self.base, self.ee = "ur5_base_link", "ur5_tool0"
                self.names = list(robots.UR5_JOINTS)
            else:
                self.robot = robots.random_robot(rng, chain=True)
                self.base, self.ee, self.names = robots.random_chain(
                    rng, self.robot, extra=0.1)
            if self.names:
                break
        self.chain = Kinematics(self.robot.text).create_chain(
            self.names, self.base, self.ee)
        self.limits = self.robot.limits(self.names)

    def forward(self, q):
        values = dict.fromkeys(self.robot.movable(), 0.0)
        values.update(zip(self.names, q))
        return self.robot.forward(self.ee, self.base, values)

    def errors(self, q, H):
        A = self.forward(q)
        return (robots.angle_between(A[:3, :3], H[:3, :3]),
                np.linalg.norm(A[:3, 3] - H[:3, 3]))

    def describe(self):
        return dict(robot=self.robot.text if len(self.robot.text) < 4000
                    else self.robot.name, base=self.base, ee=self.ee,
                    names=self.names)


def admissible(case, q, limits, what):
    case.check(np.shape(q) == (len(limits),), what + ": shape")
    case.check(np.all(np.isfinite(q)), what + ": finite")
    over = max(np.max(limits[:, 0] - q), np.max(q - limits[:, 1]))
    case.check(over <= 1e-8, what + ": outside of limits", over=over, q=q)


def random_pose(rng, arm):
    r = rng.random()
    q = rng.uniform(arm.limits[:, 0], arm.limits[:, 1])
    H = arm.forward(q)
    if r < 0.5:
        return H, "reachable"
    if r < 0.7:
        H[:3, 3] += rng.normal(size=3) * 10
        return H, "far"
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    if r < 0.85:
        H[:3, :3] = robots.rotation(axis, rng.uniform(0, 3)).dot(H[:3, :3])
        return H, "rotated"
    H[:3, :3] = H[:3, :3].dot(robots.rotation(axis, np.pi))
    return H, "half turn"


def weights(rng):
    r = rng.random()
    if r < 0.4:
        return 1.0, 1.0
    if r < 0.5:
        return 0.0, 1.0
    if r < 0.6:
        return 1.0, 0.0
    return float(rng.uniform(0.05, 1)), float(rng.uniform(0.05, 1))


def error(case):
    """The pose error is the weighted angle and distance."""
    rng = case.rng
    arm = Arm(rng)
    case.note(**arm.describe())
    for _ in range(10):
        q = robots.random_values(rng, arm.robot, arm.names)
        H, kind = random_pose(rng, arm)
        if rng.random() < 0.2:
            H = arm.forward(q)
            axis = np.eye(3)[rng.integers(3)]
            angle = rng.choice([0.0, 1e-6, 0.5 * np.pi, np.pi - 1e-6, np.pi])
            H[:3, :3] = H[:3, :3].dot(robots.rotation(axis, angle))
        wo, wp = weights(rng)
        Hc, qc = np.copy(H), np.copy(q)
        e = arm.chain.ee_pose_error(q, H, orientation_weight=wo,
                                    position_weight=wp)
        case.equal(H, Hc, "pose changed")
        case.equal(q, qc, "joints changed")
        a, p = arm.errors(q, H)
        # the angle is computed from its cosine
        case.close(e, wo * a + wp * p, 1e-6, "pose error", scale=1 + p)
        case.close(arm.chain.ee_pose_error(q, H), a + p, 1e-6,
                   "default weights", scale=1 + p)
        case.event("errors_compared", 2)


def single(case):
    rng = case.rng
    arm = Arm(rng)
    H, kind = random_pose(rng, arm)
    solver = SOLVERS[case.index % 3]
    wo, wp = weights(rng)
    start = rng.uniform(arm.limits[:, 0], arm.limits[:, 1])
    if rng.random() < 0.2:
        start = np.where(rng.random(len(start)) < 0.5, arm.limits[:, 0],
                         start)
    if kind == "half turn" and rng.random() < 0.7:
        H = arm.forward(start)
        H[:3, :3] = H[:3, :3].dot(robots.rotation(
            np.eye(3)[rng.integers(3)], np.pi))
    case.note(pose=kind, solver=solver, wo=wo, wp=wp, start=start,
              **arm.describe())
    bounds, kw = arm.limits, {}
    if rng.random() < 0.4:
        w = kinds.logu(rng, 0.01, 2.0)
        bounds = np.clip(np.c_[start - w * rng.random(len(start)),
                               start + w * rng.random(len(start))],
                         arm.limits[:, :1], arm.limits[:, 1:])
        kw["bounds"] = np.copy(bounds)
    Hc, sc = np.copy(H), np.copy(start)
    q, e = arm.chain.inverse(
        H, start, return_error=True, solver=solver, orientation_weight=wo,
        position_weight=wp, **kw)
    case.equal(H, Hc, "pose changed")
    case.equal(start, sc, "start changed")
    admissible(case, q, bounds, "solution")
    a, p = arm.errors(q, H)
    case.close(e, wo * a + wp * p, 1e-6, "reported error", scale=1 + p)
    a0, p0 = arm.errors(start, H)
    e0 = wo * a0 + wp * p0
    case.check(e <= e0 + 0.05 * (1 + e0), "worse than the start", e=e, e0=e0)
    r = arm.chain.inverse(
        H, start, solver=solver, orientation_weight=wo, position_weight=wp,
        **kw)
    case.close(r, q, 1e-9, "repeated query", scale=1.0)
    case.event("solutions")


def local(case):
    """Poses near the start are reached within the interval."""
    rng = case.rng
    arm = Arm(rng)
    solver = SOLVERS[case.index % 2]
    interval = float(rng.choice([0.1, 0.2, 0.4, 1.0]))
    case.note(solver=solver, interval=interval, **arm.describe())
    reached = []
    for _ in range(4):
        q0 = rng.uniform(arm.limits[:, 0], arm.limits[:, 1])
        near = np.clip(q0 + rng.uniform(-1, 1, len(q0)) * 0.5 * interval,
                       arm.limits[:, 0], arm.limits[:, 1])
        H = arm.forward(near)
        seed = int(rng.integers(2 ** 31))
        n = int(rng.choice([1, 5, 10]))
        q = arm.chain.local_inverse_with_random_restarts(
            H, q0, interval, n_restarts=n, tolerance=1e-3,
            random_state=np.random.RandomState(seed), solver=solver)
        B = np.clip(np.c_[q0 - interval, q0 + interval], arm.limits[:, :1],
                    arm.limits[:, 1:])
        admissible(case, q, B, "local solution")
        case.seen(q)
        if n > 1:
            reached.append(sum(arm.errors(q, H)))
        case.event("solutions")
    reached = np.sort(reached)
    if len(reached) >= 2:
        case.check(reached[0] < 0.02, "no reachable pose reached",
                   errors=reached)


def restarts(case):
    rng = case.rng
    arm = Arm(rng)
    H, kind = random_pose(rng, arm)
    seed = int(rng.integers(2 ** 31))
    solver = SOLVERS[case.index % 2]
    wo, wp = weights(rng)
    case.note(pose=kind, solver=solver, wo=wo, wp=wp, seed=seed,
              **arm.describe())
    local_search = rng.random() < 0.5
    q0 = rng.uniform(arm.limits[:, 0], arm.limits[:, 1])
    interval = kinds.logu(rng, 0.05, 3.0)
    kw = dict(solver=solver, orientation_weight=wo, position_weight=wp)

    def run(n, tol):
        rs = np.random.RandomState(seed)
        if local_search:
            return arm.chain.local_inverse_with_random_restarts(
                H, q0, interval, n_restarts=n, tolerance=tol,
                random_state=rs, **kw)
        return arm.chain.inverse_with_random_restarts(
            H, n_restarts=n, tolerance=tol, random_state=rs, **kw)

    def err(q):
        a, p = arm.errors(q, H)
        return wo * a + wp * p

    bounds = arm.limits
    if local_search:
        bounds = np.clip(np.c_[q0 - interval, q0 + interval],
                         arm.limits[:, :1], arm.limits[:, 1:])
    np.random.seed(1)
    before = np.random.get_state()[1].tolist()
    last = np.inf
    Q = []
    for n in (1, 2, 4):
        q = run(n, 0.0)
        admissible(case, q, bounds, "solution after restarts")
        e = err(q)
        case.check(e <= last + 1e-6, "more restarts, larger error", e=e,
                   last=last, n=n)
        last = e
        Q.append(q)
        case.event("solutions")
    case.check(before == np.random.get_state()[1].tolist(),
               "global random state used")
    np.random.seed(2)
    case.close(run(4, 0.0), Q[2], 1e-9, "depends on random state only",
               scale=1.0)
    case.close(run(4, 1e6), Q[0], 1e-9, "stops at the tolerance", scale=1.0)
    e0 = err(Q[0])
    if e0 > 1e-4:
        # the tolerance is not reached at first: has to be tried again
        tol = rng.uniform(0.3, 0.95) * e0
        q = run(4, tol)
        if err(q) > tol + 1e-6:
            case.close(q, Q[2], 1e-9, "gives up above the tolerance",
                       scale=1.0, wanted=tol, e=err(q))
    if not local_search:
        rs = np.random.RandomState(seed)
        best = min(err(arm.chain.inverse_with_random_restarts(
            H, n_restarts=1, tolerance=0.0, random_state=rs, **kw))
            for _ in range(4))
        case.check(last <= best + 1e-6, "restarts are the best attempt",
                   last=last, best=best)
    if local_search:
        a = arm.chain.inverse(H, q0, bounds=bounds, **kw)
        case.close(Q[0], a, 1e-6, "first attempt starts at given joints",
                   scale=1.0)


def trajectories(case):
    rng = case.rng
    arm = Arm(rng)
    n = int(rng.integers(2, 7))
    solver = SOLVERS[case.index % 2]
    wo, wp = (1.0, 1.0) if rng.random() < 0.5 else weights(rng)
    L = arm.limits
    mid, half = L.mean(axis=1), 0.5 * (L[:, 1] - L[:, 0])
    Q0 = [mid + rng.uniform(-0.8, 0.8, len(mid)) * half]
    for _ in range(n - 1):
        Q0.append(np.clip(Q0[-1] + rng.uniform(-1, 1, len(mid)) * 0.1,
                          L[:, 0], L[:, 1]))
    H = np.array([arm.forward(q) for q in Q0])
    interval = float(rng.choice([0.15, 0.1 * np.pi]))
    random_restarts = bool(rng.random() < 0.5)
    start = np.clip(Q0[0] + rng.normal(size=len(mid)) * 0.02, L[:, 0],
                    L[:, 1])
    given = rng.random() < 0.7
    seed = int(rng.integers(2 ** 31))
    case.note(n=n, solver=solver, wo=wo, wp=wp, interval=interval, seed=seed,
              random_restarts=random_restarts, given=given, **arm.describe())
    kw = dict(solver=solver, orientation_weight=wo, position_weight=wp)
    Hc, sc = np.copy(H), np.copy(start)
    np.random.seed(1)
    before = np.random.get_state()[1].tolist()
    Q = arm.chain.inverse_trajectory(
        H, initial_joint_angles=start if given else None, interval=interval,
        random_restarts=random_restarts,
        random_state=np.random.RandomState(seed), **kw)
    case.check(before == np.random.get_state()[1].tolist(),
               "global random state used")
    case.equal(H, Hc, "poses changed")
    case.equal(start, sc, "start changed")
    case.check(Q.shape == (n, len(mid)), "shape")
    if rng.random() < 0.25:
        talking = Kinematics(arm.robot.text).create_chain(
            arm.names, arm.base, arm.ee, verbose=2)
        with silence():
            Qt = talking.inverse_trajectory(
                H, initial_joint_angles=start if given else None,
                interval=interval, random_restarts=random_restarts,
                random_state=np.random.RandomState(seed), **kw)
        case.equal(Qt, Q, "verbosity changes the solution")
    for q in Q:
        admissible(case, q, L, "trajectory")
    step = np.max(np.abs(np.diff(Q, axis=0)))
    case.check(step <= interval + 1e-8, "interval left", step=step)
    case.event("solutions", n)
    # one pose after the other
    rs = np.random.RandomState(seed)
    if given:
        q = arm.chain.inverse(H[0], start, **kw)
    else:
        q = arm.chain.inverse_with_random_restarts(H[0], random_state=rs,
                                                   **kw)
    case.close(Q[0], q, 1e-6, "first pose", scale=1.0)
    for t in range(1, n):
        if random_restarts:
            q = arm.chain.local_inverse_with_random_restarts(
                H[t], Q[t - 1], interval, random_state=rs, **kw)
        else:
            B = np.clip(np.c_[Q[t - 1] - interval, Q[t - 1] + interval],
                        L[:, :1], L[:, 1:])
            q = arm.chain.inverse(H[t], Q[t - 1], bounds=B, **kw)
        case.close(Q[t], q, 1e-6, "pose from its predecessor", scale=1.0)
    if given and random_restarts and min(wo, wp) > 0:
        e = [sum(arm.errors(q, h)) for q, h in zip(Q, H)]
        case.check(np.median(e) < 0.05, "trajectory not followed", errors=e)


GROUPS = [
    Group("error", error, 100, 1500),
    Group("single", single, 180, 2400),
    Group("local", local, 80, 1000),
    Group("restarts", restarts, 80, 1000),
    Group("trajectories", trajectories, 80, 1000),
]
