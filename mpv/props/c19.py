"""Forward kinematics agrees with the robot description."""
import numpy as np

from movement_primitives.kinematics import Kinematics

from ..core import Group
from . import robots

PROPERTY = "C19"
TECHNIQUE = ("runtime monitor comparing every computed pose with an "
             "independent reader and kinematics of the robot description")
RULE = ("Random tree structured robots with all kinds of joints and the "
        "shipped UR5, several interleaved chains, values inside, at and "
        "beyond limits.")
ASSUMPTIONS = ["all movable joints between two frames belong to the chain"]


def rigid(case, H):
    R = H[:3, :3]
    case.close(R.T.dot(R), np.eye(3), 1e-9, "rotation orthonormal", scale=1)
    case.close(np.linalg.det(R), 1.0, 1e-9, "rotation right-handed", scale=1)
    case.equal(H[3], np.array([0.0, 0, 0, 1]), "last row")


def pick(rng):
    if rng.random() < 0.1:
        return robots.ur5()
    return robots.random_robot(rng)


def chains(case):
    rng = case.rng
    robot = pick(rng)
    kin = Kinematics(robot.text)
    made = []
    for _ in range(3):
        base, ee, names = robots.random_chain(rng, robot)
        made.append((kin.create_chain(list(names), base, ee), base, ee,
                     names))
    case.note(robot=robot.text if len(robot.text) < 4000 else robot.name,
              chains=[m[1:] for m in made])
    if not any(m[3] for m in made):
        return
    answers = []
    for _ in range(8):
        chain, base, ee, names = made[rng.integers(len(made))]
        q = robots.random_values(rng, robot, names)
        values = dict.fromkeys(robot.movable(), 0.0)
        values.update(zip(names, q))
        before = np.copy(q)
        H = chain.forward(q if rng.random() < 0.7 else q.tolist())
        case.equal(q, before, "joint values changed")
        want = robot.forward(ee, base, values)
        case.close(H, want, 1e-9, "pose", scale=1 + np.max(np.abs(want)))
        rigid(case, H)
        case.event("poses")
        if len(names) and rng.random() < 0.5:  # almost the same
            near = q + rng.normal(size=len(q)) * 10.0 ** rng.integers(-8, -2)
            values.update(zip(names, near))
            again = robot.forward(ee, base, values)
            case.close(chain.forward(near), again, 1e-9, "pose nearby",
                       scale=1 + np.max(np.abs(again)))
            case.event("poses")
        answers.append((chain, q, np.copy(H), H))
        if rng.random() < 0.2:
            H[:] = 7.0  # belongs to the caller
            answers[-1] = answers[-1][:3] + (None,)
    # the same queries in another order
    for i in rng.permutation(len(answers)):
        chain, q, copy, H = answers[i]
        case.close(chain.forward(q), copy, 1e-12, "depends on history",
                   scale=1 + np.max(np.abs(copy)))
        if H is not None:
            case.equal(H, copy, "earlier result changed")


def properties(case):
    """Limits, number of joints, trajectories."""
    rng = case.rng
    robot = pick(rng)
    kin = Kinematics(robot.text)
    base, ee, names = robots.random_chain(rng, robot)
    case.note(robot=robot.text if len(robot.text) < 4000 else robot.name,
              base=base, ee=ee, names=names)
    if not names:
        return
    chain = kin.create_chain(names, base, ee)
    case.check(chain.n_joints == len(names), "number of joints")
    case.equal(np.asarray(chain.joint_limits).reshape(-1, 2),
               robot.limits(names), "joint limits")
    Q = np.array([robots.random_values(rng, robot, names) for _ in range(
        int(rng.integers(1, 12)))]).reshape(-1, len(names))
    H = chain.forward_trajectory(Q)
    case.check(H.shape == (len(Q), 4, 4), "shape", shape=H.shape)
    other = Kinematics(robot.text).create_chain(names, base, ee)
    for i in range(len(Q)):
        values = dict.fromkeys(robot.movable(), 0.0)
        values.update(zip(names, Q[i]))
        want = robot.forward(ee, base, values)
        s = 1 + np.max(np.abs(want))
        case.close(H[i], want, 1e-9, "pose of trajectory", scale=s)
        case.close(other.forward(Q[i]), H[i], 1e-12, "other object", scale=s)
        case.event("poses", 2)
    # moving joints one by one, through the transformation manager
    values = {n: 0.0 for n in robot.movable()}
    for n in names:
        lo, hi = robot.limits([n])[0]
        values[n] = float(rng.uniform(lo, hi))
    for n in rng.permutation(sorted(values)):
        kin.tm.set_joint(n, values[n])
    a, b = rng.choice(robot.links, 2)
    want = robot.forward(str(a), str(b), values)
    case.close(kin.tm.get_transform(str(a), str(b)), want, 1e-9,
               "pose of transformation manager",
               scale=1 + np.max(np.abs(want)))


def inverse_pose(case):
    """Swapping base and end effector inverts the pose."""
    rng = case.rng
    robot = pick(rng)
    kin = Kinematics(robot.text)
    base, ee, names = robots.random_chain(rng, robot)
    third = str(rng.choice(robot.links))
    names = sorted(robot.movable())
    case.note(robot=robot.text if len(robot.text) < 4000 else robot.name,
              base=base, ee=ee, third=third)
    q = robots.random_values(rng, robot, names)
    A = kin.create_chain(names, base, ee).forward(q)
    B = kin.create_chain(names, ee, base).forward(q)
    case.close(A.dot(B), np.eye(4), 1e-9, "inverse", scale=1 + np.max(
        np.abs(A)))
    C = kin.create_chain(names, third, ee).forward(q)
    D = kin.create_chain(names, base, third).forward(q)
    case.close(D.dot(C), A, 1e-9, "composition", scale=1 + np.max(np.abs(D)))
    # joint order is that of the chain
    if names:
        perm = rng.permutation(len(names))
        E = kin.create_chain([names[i] for i in perm], base, ee).forward(
            q[perm])
        case.close(E, A, 1e-12, "order of joints", scale=1 + np.max(
            np.abs(A)))


GROUPS = [
    Group("chains", chains, 400, 6000),
    Group("properties", properties, 300, 4000),
    Group("inverse_pose", inverse_pose, 300, 4000),
]
