"""Orientations stay rotations and do not depend on the quaternion sign."""
import numpy as np

from .. import kinds, ref
from ..core import Group

PROPERTY = "C08"
TECHNIQUE = ("runtime invariant monitor (unit norm, shortest rotation) and "
             "metamorphic monitor (sign flips, rotated coordinate systems)")
RULE = ("Random orientation primitives are executed with flipped quaternion "
        "signs, rotated starts, goals and demonstrations, up to half turns.")
ASSUMPTIONS = ["orientations stay away from the half turn to the goal where "
               "traces are compared; half turns are executed for the norm"]
KINDS = ("cart", "dual", "sdo")
TOL = 1e-7


def flip(rng, p, Y):
    Y = np.array(Y, dtype=float)
    for q, _ in kinds.ori_dims(p):
        if Y.ndim == 1:
            if rng.random() < 0.6:
                Y[q] *= -1.0
        else:
            Y[:, q] *= rng.choice([-1.0, 1.0], size=(len(Y), 1))
    return Y


def compare(case, p, A, B, what, tol=TOL):
    pd, _ = kinds.pos_dims(p)
    if len(pd):
        case.close(A[:, pd], B[:, pd], tol, what + " (position)",
                   scale=kinds.state_scale(p)[pd[0]] + np.max(np.abs(A[:, pd])))
    for q, _ in kinds.ori_dims(p):
        case.seen(A[:, q])
        case.close(ref.qdist(A[:, q], B[:, q]), np.zeros(len(A)), 10 * tol,
                   what + " (orientation)", scale=1.0)


def unit(case, p, Y, tol=1e-7):
    for q, _ in kinds.ori_dims(p):
        n = np.linalg.norm(Y[..., q], axis=-1)
        case.close(n, np.ones_like(n), tol, "unit quaternions", scale=1.0)


def norms(case):
    """Long, violent motions."""
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = kinds.random_params(rng, kind, max_angle=np.pi)
    if kind != "sdo":
        p["weights"] *= kinds.logu(rng, 1, 300)
    p["int_dt"] = max(p["int_dt"], p["dt"] / 4)
    p["start_yd"] = rng.normal(size=p["n_vel"]) * kinds.logu(
        rng, 0.1, 30) / p["tau"]
    case.note(**kinds.describe(p))
    n = int(rng.choice([200, 500, 1500]))
    obj = kinds.make(p)
    Y, _ = kinds.rollout(obj, p, n)
    case.event("steps", n)
    unit(case, p, Y)
    case.seen(Y)
    case.check(np.all(np.isfinite(Y)), "states are finite")
    T, Y = kinds.open_loop(kinds.make(p), p, p["dt"] * min(n, 300))
    unit(case, p, Y)


def signs(case):
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = kinds.random_params(rng, kind, max_angle=2.6,
                            p_gain=rng.random() < 0.3)
    q = kinds.clone(p)
    q["start_y"] = flip(rng, p, p["start_y"])
    q["goal_y"] = flip(rng, p, p["goal_y"])
    run_t = p["tau"] * float(rng.choice([0.7, 1.2]))
    case.note(**kinds.describe(p))
    _, A = kinds.open_loop(kinds.make(p), p, run_t)
    _, B = kinds.open_loop(kinds.make(q), q, run_t)
    compare(case, p, A, B, "open loop with flipped signs")
    # flipped feedback during stepping
    n = int(run_t / p["dt"])
    A, _ = kinds.rollout(kinds.make(p), p, n)
    obj = kinds.make(q)
    y, yd = np.copy(q["start_y"]), np.copy(q["start_yd"])
    B = [y]
    for i in range(n):
        if rng.random() < 0.2:
            obj.configure(goal_y=flip(rng, p, p["goal_y"]))
        if kind != "sdo" and rng.random() < 0.2:
            obj.configure(start_y=flip(rng, p, p["start_y"]))
        y, yd = kinds.step(obj, q, flip(rng, p, y), yd)
        B.append(y)
    case.event("steps", 2 * n)
    compare(case, p, A, np.array(B), "stepping with flipped signs")


def rotated(case):
    """Other coordinate systems."""
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = kinds.random_params(rng, kind, max_angle=2.4)
    r = kinds.quat(rng)
    side = "right" if rng.random() < 0.5 else "left"
    q = kinds.clone(p)
    if side == "left" and kind != "sdo":
        a = rng.uniform(10, 40)
        p["alpha"] = q["alpha"] = float(a)
        p["beta"] = q["beta"] = float(a * rng.uniform(0.1, 0.5))
        h = min(p["dt"], kinds.largest_step(p))
        for x in (p, q):
            x["dt"] = h
        w = 0.1 * p["alpha"] * p["beta"]
        for _, v in kinds.ori_dims(p):
            p["weights"][v] = rng.normal(size=(3, p["n_weights"])) * w
            q["weights"][v] = np.copy(p["weights"][v])
    R = ref.qmat(r)
    for o, v in kinds.ori_dims(p):
        for k in ("start_y", "goal_y"):
            q[k][o] = ref.qmul(r, p[k][o]) if side == "left" \
                else ref.qmul(p[k][o], r)
        if side == "left":
            q["start_yd"][v] = R @ p["start_yd"][v]
            q["weights"][v] = R @ p["weights"][v]
    case.note(side=side, r=r, **kinds.describe(p))
    run_t = p["tau"]
    n = int(run_t / p["dt"])
    A, Ad = kinds.rollout(kinds.make(p), p, n)
    B, Bd = kinds.rollout(kinds.make(q), q, n)
    case.event("steps", 2 * n)
    E, Ed = np.copy(A), np.copy(Ad)
    for o, v in kinds.ori_dims(p):
        E[:, o] = ref.qmul(r, A[:, o]) if side == "left" \
            else ref.qmul(A[:, o], r)
        if side == "left":
            Ed[:, v] = Ad[:, v] @ R.T
    compare(case, p, E, B, "rotated from the " + side)
    vs = kinds.velocity_scale(p)
    case.close(Ed, Bd, 1e-6, "angular velocity rotates",
               scale=np.maximum(vs, np.max(np.abs(Ed))))


def learning(case):
    rng = case.rng
    kind = ("cart", "dual")[case.index % 2]
    p = kinds.random_params(rng, kind, max_angle=2.0, start_velocity=False)
    T, Y = kinds.demonstration(rng, p)
    mode = ["signs", "right", "left"][rng.integers(3)]
    q = kinds.clone(p)
    if mode == "left":
        a = rng.uniform(15, 40)
        p["alpha"] = q["alpha"] = float(a)
        p["beta"] = q["beta"] = float(a * 0.25)
        p["dt"] = q["dt"] = min(p["dt"], kinds.largest_step(p))
    r = kinds.quat(rng)
    Z = np.copy(Y)
    for o, _ in kinds.ori_dims(p):
        if mode == "left":
            Z[:, o] = ref.qmul(r, Y[:, o])
        elif mode == "right":
            Z[:, o] = ref.qmul(Y[:, o], r)
    if mode == "signs":
        if rng.random() < 0.5:
            Z = flip(rng, p, Y)
        else:
            for o, _ in kinds.ori_dims(p):
                Z[:, o] *= -1.0
    case.note(mode=mode, **kinds.describe(p))
    u, v = kinds.construct(p), kinds.construct(q)
    u.imitate(T, Y)
    v.imitate(T, Z)
    _, A = kinds.open_loop(u, p)
    _, B = kinds.open_loop(v, p)
    for o, _ in kinds.ori_dims(p):
        if mode == "left":
            A[:, o] = ref.qmul(r, A[:, o])
        elif mode == "right":
            A[:, o] = ref.qmul(A[:, o], r)
    compare(case, p, A, B, "learned from demonstration, " + mode, tol=1e-6)
    unit(case, p, A)


def shortest(case):
    """Without weights the rotation takes the shortest way."""
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = kinds.random_params(rng, kind, critical=True, weights=False,
                            max_angle=np.pi - 0.003, start_velocity=False)
    p["smooth"] = False
    if kind == "sdo":
        p["c"] = None
        p["dt"] = min(p["dt"], kinds.largest_step(p))
        a = np.full(3, p["k"])
    else:
        a = np.prod(kinds.full_gains(p), axis=0) / p["tau"] ** 2
    case.note(**kinds.describe(p))
    obj = kinds.make(p)
    n = int(2 * p["tau"] / p["dt"])
    q = kinds.clone(p)
    q["dt"] = q["int_dt"] = p["tau"] * 1e-5
    y, yd = kinds.step(kinds.make(q), q, p["start_y"], p["start_yd"])
    Y, Yd = kinds.rollout(obj, p, n)
    for o, v in kinds.ori_dims(p):
        d = ref.qlog(ref.qmul(p["goal_y"][o], ref.qconj(p["start_y"][o])))
        angle = np.linalg.norm(d)
        case.close(yd[v], q["dt"] * a[v] * d, 1e-3,
                   "first velocity along shortest rotation",
                   scale=q["dt"] * np.max(a) * max(angle, 1e-6))
        if np.ptp(a[v]) == 0.0:  # geodesic
            length = np.sum(ref.qdist(Y[1:, o], Y[:-1, o]))
            case.check(length <= angle * 1.02 + 1e-6, "path is the shortest",
                       length=length, angle=angle)
        case.seen(Y[:, o])


def helpers(case):
    from movement_primitives import dmp_fast as f
    rng = case.rng
    a, b, c = kinds.quat(rng), kinds.quat(rng), kinds.quat(rng)
    case.note(a=a, b=b)
    ab = f.concatenate_quaternions(a, b)
    case.close(np.linalg.norm(ab), 1.0, 1e-12, "product is a unit quaternion")
    case.close(f.concatenate_quaternions(ab, c),
               f.concatenate_quaternions(a, f.concatenate_quaternions(b, c)),
               1e-12, "product is associative", scale=1.0)
    case.close(ref.qmat(ab), ref.qmat(a) @ ref.qmat(b), 1e-11,
               "product composes rotations", scale=1.0)
    angle = rng.uniform(0, np.pi - 1e-3)
    if rng.random() < 0.3:
        angle = kinds.logu(rng, 1e-8, 1e-2)
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    q = ref.qexp(axis * angle)
    r1 = f.compact_axis_angle_from_quaternion(np.array(q))
    r2 = f.compact_axis_angle_from_quaternion(-q)
    case.close(r1, axis * angle, 1e-6, "rotation vector", scale=1.0)
    case.close(r2, axis * angle, 1e-6, "rotation vector of flipped sign",
               scale=1.0)


GROUPS = [
    Group("norms", norms, 60, 600),
    Group("signs", signs, 210, 2100),
    Group("rotated", rotated, 180, 1800),
    Group("learning", learning, 120, 1200),
    Group("shortest", shortest, 120, 1200),
    Group("helpers", helpers, 1000, 10000),
]
