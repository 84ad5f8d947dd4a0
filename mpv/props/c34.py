"""The simulated robot agrees with the kinematic model."""
import contextlib
import os
import tempfile
import xml.etree.ElementTree as ET

import numpy as np
import pybullet

from movement_primitives.kinematics import Kinematics
from movement_primitives.testing.simulation import (
    KinematicsChain, SimulationMockup, UR5Simulation, analyze_robot)

from .. import build, kinds, ref
from ..core import Group
from . import robots

PROPERTY = "C34"
TECHNIQUE = ("runtime reference and trace monitors: states of the physics "
             "engine against independent forward kinematics, primitives that "
             "record each call, simulations side by side")
RULE = ("Random joint states, reachable poses, step sizes and recorded "
        "primitives in simulations of the UR5; random robot descriptions "
        "for the analysis of joints and links.")
ASSUMPTIONS = [
    "pybullet without graphical interface, started in the root of the "
    "repository as in the tests and examples",
    "inverse kinematics: pose near the current one, as in the control loop",
    "the RH5 robot description is not part of the repository"]

EE, BASE = "ur5_flange", "ur5_base_link"
URDF = os.path.join(build.REPO, "examples", "data", "urdf", "ur5.urdf")


@contextlib.contextmanager
def in_repository():
    """The robot is loaded from a path relative to the repository."""
    old = os.getcwd()
    os.chdir(build.REPO)
    try:
        with silent():
            yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def silent():
    """The engine prints warnings."""
    kept = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        yield
    finally:
        os.dup2(kept[0], 1)
        os.dup2(kept[1], 2)
        for f in kept + (null,):
            os.close(f)


@contextlib.contextmanager
def simulations(*steps):
    sims = []
    try:
        with in_repository():
            for dt in steps:
                sims.append(UR5Simulation(dt, gui=False))
        yield sims
    finally:
        for s in sims:
            pybullet.disconnect(s.client_id)


def put(sim, q, qd=None):
    """Moves the robot without simulating."""
    qd = np.zeros(6) if qd is None else qd
    for i, a, b in zip(sim.joint_indices, q, qd):
        pybullet.resetJointState(
            sim.robot, i, a, b, physicsClientId=sim.client_id)


def pq(H):
    """Pose as position and quaternion."""
    return np.hstack((H[:3, 3], quaternion(H[:3, :3])))


def quaternion(R):
    # largest component first, so that it is accurate for all rotations
    K = np.array([
        [R[0, 0] + R[1, 1] + R[2, 2], 0, 0, 0],
        [R[2, 1] - R[1, 2], R[0, 0] - R[1, 1] - R[2, 2], 0, 0],
        [R[0, 2] - R[2, 0], R[1, 0] + R[0, 1], R[1, 1] - R[0, 0] - R[2, 2],
         0],
        [R[1, 0] - R[0, 1], R[2, 0] + R[0, 2], R[2, 1] + R[1, 2],
         R[2, 2] - R[0, 0] - R[1, 1]]])
    v = np.linalg.eigh((K + np.tril(K, -1).T) / 3.0)[1][:, -1]
    return v


def expected(q, robot=None):
    robot = robots.ur5() if robot is None else robot
    return pq(robot.forward(EE, BASE, dict(zip(robots.UR5_JOINTS, q))))


def pose_error(a, b):
    return (np.linalg.norm(np.asarray(a)[:3] - b[:3]),
            angle(a[3:], b[3:]))


def angle(a, b):
    d = abs(np.dot(a, b)) / (np.linalg.norm(a) * np.linalg.norm(b))
    return 2.0 * np.arccos(min(d, 1.0))


def same_pose(case, a, b, tol, what):
    p, r = pose_error(a, b)
    case.check(p <= tol and r <= tol, what, got=a, expected=b, distance=p,
               angle=r)
    case.seen(np.asarray(a))


def joints(rng, robot):
    L = robot.limits(robots.UR5_JOINTS)
    return rng.uniform(L[:, 0] + 0.3, L[:, 1] - 0.3)


def regular(rng, robot):
    """Joint angles away from outstretched, folded and overhead arms."""
    while True:
        q = joints(rng, robot)
        q[2] = rng.choice([-1, 1]) * rng.uniform(0.7, 2.3)
        q[4] = rng.choice([-1, 1]) * rng.uniform(0.6, 2.4)
        w = robot.forward("ur5_wrist_1_link", BASE,
                          dict(zip(robots.UR5_JOINTS, q)))
        if np.hypot(w[0, 3], w[1, 3]) > 0.3:
            return q


def states(case):
    rng = case.rng
    robot = robots.ur5()
    chain = Kinematics(robot.text).create_chain(
        robots.UR5_JOINTS, BASE, EE)
    with simulations(float(rng.choice([0.001, 0.01, 0.02]))) as (sim,):
        names = [sim.joint_names[i].decode() for i in sim.joint_indices]
        case.check(names[:6] == list(robots.UR5_JOINTS), "joints",
                   got=names)
        for _ in range(10):
            q, qd = joints(rng, robot), rng.normal(size=6)
            put(sim, q, qd)
            a, b = sim.get_joint_state()
            case.close(a, q, 1e-6, "joint angles", scale=1.0)
            case.close(b, qd, 1e-6, "joint velocities", scale=1.0)
            got = sim.get_ee_state()
            case.check(np.shape(got) == (7,), "shape of pose")
            same_pose(case, got, expected(q, robot), 1e-4, "end effector")
            same_pose(case, got, pq(chain.forward(q)), 1e-4,
                      "end effector and kinematics")
            got2, v = sim.get_ee_state(return_velocity=True)
            case.close(got2, got, 1e-9, "pose with velocity", scale=1.0)
            # velocity of the end effector
            h = 1e-5
            d = (expected(q + h * qd, robot)
                 - expected(q - h * qd, robot))[:3] / (2 * h)
            case.check(np.shape(v) == (6,), "shape of velocity")
            case.close(v[:3], d, 1e-3, "velocity", scale=1.0)
            case.close(v[3:], np.zeros(3), 0.0, "angular velocity", scale=1.0)
            case.event("robot_states")


def reach(case):
    rng = case.rng
    robot = robots.ur5()
    dt = float(rng.choice([0.005, 0.01]))
    with simulations(dt) as (sim,):
        q = regular(rng, robot)
        put(sim, q + rng.uniform(-0.1, 0.1, size=6))
        goal = expected(q, robot)
        if rng.random() < 0.5:
            goal[3:] *= -1.0
        case.note(dt=dt, q=q, goal=goal)
        s = sim.inverse_kinematics(np.copy(goal))
        case.check(np.shape(s) == (6,), "one angle per joint")
        # the solver of the engine needs several attempts
        for _ in range(9):
            sim.goto_ee_state(np.copy(goal), wait_time=0.7)
        sim.stop()
        same_pose(case, sim.get_ee_state(), goal, 0.01, "pose is reached")
        same_pose(case, expected(sim.inverse_kinematics(goal), robot), goal,
                  0.01, "inverse kinematics")
        same_pose(case, sim.get_ee_state(),
                  expected(sim.get_joint_state()[0], robot), 1e-3,
                  "state after simulation")


class Recorder:
    """Primitive that moves slowly and remembers all calls."""

    def __init__(self, sim, start, step, turn):
        self.sim, self.start = sim, start
        self.velocity = np.hstack((step, turn))
        self.calls, self.states, self.results = [], [], []

    def step(self, last_y, last_yd, coupling_term=None):
        self.calls.append((np.copy(last_y), np.copy(last_yd), coupling_term))
        if self.sim is not None:
            self.states.append(self.sim.get_ee_state(return_velocity=True))
        n = len(self.calls)
        y = np.copy(self.start)
        y[:3] += n * self.velocity[:3]
        y[3:] = ref.qmul(ref.qexp(n * self.velocity[3:]), self.start[3:])
        yd = np.full(6, float(n))
        self.results.append((np.copy(y), np.copy(yd)))
        return y, yd


def check_record(case, rec, result, n, start, v, closed):
    P, M, V, W = result
    for a, k, name in ((P, 7, "desired positions"), (M, 7, "positions"),
                       (V, 6, "desired velocities"), (W, 6, "velocities")):
        case.check(np.shape(a) == (n + 1, k), "shape of " + name,
                   got=np.shape(a), expected=(n + 1, k))
    case.check(len(rec.calls) == n, "number of steps", got=len(rec.calls),
               expected=n)
    case.equal(P, [start] + [r[0] for r in rec.results], "desired positions")
    case.equal(V, [v] + [r[1] for r in rec.results], "desired velocities")
    case.equal([c[1] for c in rec.calls], V[:-1], "velocities in order")
    case.equal([c[0] for c in rec.calls], (M if closed else P)[:-1],
               "positions in order")
    case.event("recorded_steps", n)


def recorded(case):
    rng = case.rng
    robot = robots.ur5()
    dt = float(rng.choice([0.005, 0.01, 0.02]))
    closed = bool(rng.random() < 0.5)
    with simulations(dt) as (sim,):
        q = regular(rng, robot)
        put(sim, q)
        start = sim.get_ee_state()
        rec = Recorder(sim, start, rng.normal(size=3) * 0.2 * dt,
                       rng.normal(size=3) * 0.2 * dt)
        n = int(rng.integers(3, 60))
        v = rng.normal(size=6)
        case.note(dt=dt, q=q, n=n, closed=closed)
        result = sim.step_through_cartesian(
            rec, np.copy(start), np.copy(v), (n + 0.3) * dt,
            **({"closed_loop": True} if closed else {}))
        check_record(case, rec, result, n, start, v, closed)
        M, W = result[1], result[3]
        case.equal(M[:-1], [s[0] for s in rec.states], "measured positions")
        case.equal(W[:-1], [s[1] for s in rec.states], "measured velocities")


def follows(case):
    """Typically, the robot follows a primitive."""
    rng = case.rng
    robot = robots.ur5()
    closed = bool(rng.random() < 0.5)
    case.note(closed=closed)
    error = []
    for _ in range(11):
        dt = float(rng.choice([0.005, 0.01, 0.02]))
        with simulations(dt) as (sim,):
            put(sim, regular(rng, robot))
            start = sim.get_ee_state()
            rec = Recorder(None, start, rng.normal(size=3) * 0.2 * dt,
                           rng.normal(size=3) * 0.2 * dt)
            P, M = sim.step_through_cartesian(
                rec, start, np.zeros(6), 60.3 * dt, closed_loop=closed)[:2]
            error.append((np.linalg.norm(M[-1, :3] - P[-1, :3])
                          / np.linalg.norm(P[-1, :3] - start[:3]),
                          angle(M[-1, 3:], P[-1, 3:])
                          / angle(start[3:], P[-1, 3:])))
            case.seen(M)
            case.event("movements")
    error = np.median(error, axis=0)
    case.check(error[0] < 0.5, "typical position error", got=error[0])
    case.check(error[1] < 0.9, "typical orientation error", got=error[1])


def mockup(case):
    rng = case.rng
    dt = float(rng.choice([0.005, 0.01, 0.1]))
    sim = SimulationMockup(dt)
    start = np.hstack((rng.normal(size=3), kinds.quat(rng)))
    sim.goto_ee_state(start)
    case.close(sim.ee_state, start, 0.0, "state", scale=1.0)
    rec = Recorder(None, start, rng.normal(size=3) * dt,
                   rng.normal(size=3) * dt)
    n, v = int(rng.integers(1, 60)), rng.normal(size=6)
    term = object() if rng.random() < 0.5 else None
    case.note(dt=dt, n=n)
    kw = {} if term is None else {"coupling_term": term}
    result = sim.step_through_cartesian(
        rec, np.copy(start), np.copy(v), (n + 0.3) * dt, **kw)
    check_record(case, rec, result, n, start, v, False)
    case.equal(result[1], result[0], "positions")
    case.equal(result[3], result[2], "velocities")
    case.check(all(c[2] is term for c in rec.calls), "coupling term")
    # a primitive: its own trajectory
    p = kinds.random_params(rng, "cart")
    p["variant"] = kinds.DEFAULT
    m = int(rng.integers(1, 40))
    P, M, V, W = SimulationMockup(p["dt"]).step_through_cartesian(
        kinds.make(p), np.copy(p["start_y"]), np.copy(p["start_yd"]),
        (m + 0.3) * p["dt"])
    Y, Yd = kinds.rollout(kinds.make(p), p, m)
    case.equal(P, Y, "trajectory of a primitive")
    case.equal(V, Yd, "velocities of a primitive")


def history(sim, seed, robot):
    """Random commands, yields states."""
    rng = np.random.default_rng(seed)
    q = joints(rng, robot)
    put(sim, q)
    for _ in range(12):
        r = rng.random()
        if r < 0.3:
            sim.set_desired_joint_state(
                q + rng.uniform(-0.3, 0.3, size=6), position_control=True)
        elif r < 0.5:
            sim.set_desired_joint_state(rng.uniform(-0.3, 0.3, size=6))
        elif r < 0.6:
            sim.stop()
        elif r < 0.7:
            yield np.array(sim.inverse_kinematics(sim.get_ee_state()))
        sim.sim_loop(int(rng.integers(1, 5)))
        yield np.hstack(sim.get_joint_state() + (sim.get_ee_state(),))


def side_by_side(case):
    rng = case.rng
    robot = robots.ur5()
    n = int(rng.integers(2, 5))
    steps = rng.choice([0.002, 0.01, 0.02], size=n).tolist()
    seeds = rng.integers(1 << 30, size=n).tolist()
    case.note(steps=steps, seeds=seeds)
    alone = []
    for dt, seed in zip(steps, seeds):
        with simulations(dt) as (sim,):
            alone.append(list(history(sim, seed, robot)))
    for a in alone:
        for x in a:
            case.seen(x)
    error = None
    got = [[] for _ in alone]
    try:
        with simulations(*steps) as sims:
            case.check(len({s.client_id for s in sims}) == n,
                       "simulations differ")
            running = {i: history(s, seeds[i], robot)
                       for i, s in enumerate(sims)}
            while running:
                i = list(running)[rng.integers(len(running))]
                try:
                    got[i].append(next(running[i]))
                except StopIteration:
                    del running[i]
    except pybullet.error as e:
        error = str(e)
    same = error is None and all(
        len(a) == len(b) and all(np.allclose(x, y, rtol=0.0, atol=1e-9)
                                 for x, y in zip(a, b))
        for a, b in zip(got, alone))
    case.check(same, "simulation next to others", error=error)
    case.event("simulations", n)


def numerical(case):
    """Inverse kinematics with the physics engine."""
    rng = case.rng
    robot = robots.ur5()
    names = list(rng.permutation(robots.UR5_JOINTS))
    ee = str(rng.choice(["ur5_flange", "ur5_tool0", "ur5_wrist_3_link"]))
    q = regular(rng, robot)
    values = dict(zip(robots.UR5_JOINTS, q))
    goal = pq(robot.forward(ee, BASE, values))
    case.note(ee=ee, joints=names, q=q)
    with silent():
        chain = KinematicsChain(ee, names, URDF)
    try:
        start = np.array([values[n] for n in names]) \
            + rng.uniform(-0.1, 0.1, size=6)
        got = chain.inverse(goal, start, n_iter=500, threshold=1e-4)
        case.check(np.shape(got) == (6,), "one angle per joint")
        H = robot.forward(ee, BASE, dict(zip(names, got)))
        same_pose(case, pq(H), goal, 0.15, "inverse kinematics")
        for _ in range(5):
            got = chain.inverse(goal, got, n_iter=500, threshold=1e-5)
        H = robot.forward(ee, BASE, dict(zip(names, got)))
        same_pose(case, pq(H), goal, 0.01, "repeated inverse kinematics")
        again = chain.inverse(goal, None, n_iter=500, threshold=1e-5)
        H = robot.forward(ee, BASE, dict(zip(names, again)))
        same_pose(case, pq(H), goal, 0.01, "from the current state")
    finally:
        pybullet.disconnect(chain.client_id_)


def with_limits(text):
    """The engine insists on limits."""
    root = ET.fromstring(text.strip())
    for j in root.findall("joint"):
        if j.attrib["type"] in ("revolute", "prismatic") \
                and j.find("limit") is None:
            ET.SubElement(j, "limit", lower="-1", upper="1", effort="1",
                          velocity="1")
    return ET.tostring(root, encoding="unicode")


def analysis(case):
    rng = case.rng
    robot = robots.ur5() if case.index % 10 == 0 \
        else robots.random_robot(rng)
    types = {j["type"] for j in robot.joints.values()}
    case.note(links=robot.links, types=sorted(types))
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "robot.urdf")
        with open(path, "w") as f:
            f.write(with_limits(robot.text))
        if case.index % 10 == 0:
            path = URDF  # meshes are next to it
        with silent():
            client = pybullet.connect(pybullet.DIRECT)
            try:
                body = pybullet.loadURDF(
                    path, useFixedBase=1, physicsClientId=client)
                J, L, I = analyze_robot(
                    robot=body, physicsClientId=client,
                    return_joint_indices=True)
                two = analyze_robot(robot=body, physicsClientId=client)
                n = pybullet.getNumJoints(body, physicsClientId=client)
                info = [pybullet.getJointInfo(body, i,
                                              physicsClientId=client)
                        for i in range(n)]
            finally:
                pybullet.disconnect(client)
    case.check(two == (J, L), "same without joint indices")
    case.check(set(J) == set(robot.joints), "joints", got=sorted(J))
    for name, i in J.items():
        case.check(info[i][1].decode() == name, "index of joint")
        child = robot.joints[name]["child"]
        case.check(L.get(child) == i, "index of link", link=child,
                   got=L.get(child), expected=i)
    movable = [i[1].decode() for i in info if i[2] != pybullet.JOINT_FIXED]
    case.check(I == {n: i for i, n in enumerate(movable)},
               "indices for inverse kinematics", got=I)
    case.check(sorted(movable) == sorted(robot.movable()), "movable joints")
    case.seen([J[k] for k in sorted(J)] + [len(I), len(L)])
    case.event("joints", len(J))


GROUPS = [
    Group("states", states, 30, 300),
    Group("reach", reach, 40, 400),
    Group("recorded", recorded, 40, 400),
    Group("follows", follows, 16, 100),
    Group("mockup", mockup, 60, 600),
    Group("side_by_side", side_by_side, 25, 250),
    Group("numerical", numerical, 40, 400),
    Group("analysis", analysis, 60, 600),
]
