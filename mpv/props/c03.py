"""Every DMP settles at its goal and stays there."""
import numpy as np

from .. import kinds, ref
from ..core import Group

PROPERTY = "C03"
TECHNIQUE = "runtime safety and convergence monitor on long executions"
RULE = ("Random critically damped DMPs of all kinds, with large weights, far "
        "goals and rotations up to half turns, are executed for several "
        "times the execution time.")
ASSUMPTIONS = ["critically damped gains", "stable integration steps"]


def distance(p, Y):
    """Distance to goal per dimension (rotation vectors for orientations)."""
    D = np.empty((len(Y), p["n_vel"]))
    pd, pv = kinds.pos_dims(p)
    D[:, pv] = p["goal_y"][pd] - Y[:, pd]
    for q, v in kinds.ori_dims(p):
        D[:, v] = ref.qlog(ref.qmul(p["goal_y"][q], ref.qconj(Y[:, q])))
    return D


def hostile(rng, kind, **kw):
    p = kinds.random_params(rng, kind, critical=True, max_angle=np.pi, **kw)
    r = rng.random()
    if r < 0.25:
        p["weights"] = p["weights"] * kinds.logu(rng, 10, 1e4)
    elif r < 0.4:
        p["weights"] = p["weights"] * 1e-6
    pd, _ = kinds.pos_dims(p)
    if len(pd) and rng.random() < 0.3:
        p["goal_y"][pd] *= kinds.logu(rng, 10, 1e4)
    if len(pd) and rng.random() < 0.2:
        p["start_y"][pd] *= kinds.logu(rng, 10, 1e4)
    return p


def settles(case):
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = hostile(rng, kind)
    h = min(p["int_dt"], p["dt"])
    if h < p["tau"] / 400:
        p["int_dt"] = p["tau"] / 400
    case.note(**kinds.describe(p))
    run = 6.0
    how = "open_loop" if rng.random() < 0.5 else "step"
    obj = kinds.make(p)
    if how == "open_loop":
        T, Y = kinds.open_loop(obj, p, run * p["tau"])
    else:
        n = int(np.ceil(run * p["tau"] / p["dt"]))
        Y, Yd = kinds.rollout(obj, p, n)
        T = p["dt"] * np.arange(n + 1)
        case.check(np.all(np.isfinite(Yd)), "velocities are finite")
    case.check(np.all(np.isfinite(Y)), "states are finite")
    case.event("states_observed", len(Y))
    D = np.abs(distance(p, Y))
    case.seen(D)
    # envelope: remaining forcing plus decayed transient
    a, b = kinds.full_gains(p)
    scale = np.empty(p["n_vel"])
    pd, pv = kinds.pos_dims(p)
    scale[pv] = kinds.state_scale(p)[pd] + np.max(np.abs(Y[:, pd]), axis=0)
    for _, v in kinds.ori_dims(p):
        scale[v] = np.pi
    w = np.max(np.abs(p["weights"]), axis=1)
    late = T >= 3.0 * p["tau"]
    z = ref.phase(T[late], p["tau"])[:, np.newaxis]
    transient = np.exp(-0.25 * a * (T[late, np.newaxis] / p["tau"] - 1.0))
    if kind in ("cart", "dual"):
        # orientations may need a few turns to come to rest first
        transient = np.maximum(transient, np.where(
            T[late, np.newaxis] < 5 * p["tau"], 1.0, 1e-5))
    # response of the spring to the decaying forces, close to resonance if
    # it decays as fast as the phase
    gain = (0.5 * a / (np.abs(0.5 * a - ref.ALPHA_Z) + 0.1)) ** 2
    d0 = np.abs(distance(p, Y[:1])[0])
    allowed = 4.0 * gain * (w / (a * b) + d0 * p["smooth"]) * z \
        + scale * (200.0 * transient + 1e-9)
    bad = D[late] > allowed
    case.event("verdicts", 1)
    if np.any(bad):
        i = np.unravel_index(np.argmax(D[late] / allowed), bad.shape)
        case.fail("does not settle at the goal", t=T[late][i[0]],
                  dim=i[1], distance=D[late][i], allowed=allowed[i])
    if how == "step":
        end = np.abs(Yd[-1])
        vs = np.empty(p["n_vel"])
        vs[:] = scale * 40 / p["tau"]
        lim = 1e-6 * vs + 40 * gain * z[-1] * (
            w / (a * b) + d0 * p["smooth"]) / p["tau"]
        case.check(np.all(end <= lim), "comes to rest", velocity=end,
                   allowed=lim)


def straight(case):
    """Without weights: along a straight line or geodesic, no overshoot."""
    rng = case.rng
    kind = ("dmp", "cart", "dual")[case.index % 3]
    p = kinds.random_params(rng, kind, critical=True, weights=False,
                            max_angle=np.pi - 0.01, start_velocity=False,
                            fast=False)
    # the same gains for all dimensions: straight line
    a = rng.uniform(10.0, 40.0)
    p["alpha"], p["beta"] = float(a), float(a / 4)
    p["dt"] = min(p["dt"], kinds.largest_step(p))
    case.note(**kinds.describe(p))
    run_t = 2.5 * p["tau"]
    T, Y = kinds.open_loop(kinds.make(p), p, run_t)
    D = distance(p, Y)
    pd, pv = kinds.pos_dims(p)
    blocks = []
    if kind == "dual":
        blocks = [pv[:3], pv[3:]]
    else:
        blocks = [pv]
    blocks += [v for _, v in kinds.ori_dims(p)]
    for v in blocks:
        d = D[:, v]
        d0 = d[0]
        n0 = np.linalg.norm(d0)
        if n0 < 1e-9:
            case.check(np.max(np.abs(d)) < 1e-9 * max(1.0, p["scale"]),
                       "stays at the goal")
            continue
        s = d @ d0 / n0 ** 2
        off = np.linalg.norm(d - s[:, np.newaxis] * d0, axis=1) / n0
        case.check(np.max(off) < 1e-6, "moves on a straight line",
                   deviation=np.max(off))
        case.check(np.min(s) > -1e-3, "does not overshoot", s=np.min(s))
        case.check(np.max(np.diff(s)) < 1e-3 and np.max(s) < 1 + 1e-6,
                   "approaches monotonically", step=np.max(np.diff(s)))
        case.check(abs(s[-1]) < 2e-3 + 3 * p["smooth"] * ref.phase(2.5, 1.0) + (
            1 + 1.25 * a) * np.exp(-1.25 * a) * 5,
            "reaches the goal", rest=s[-1])
        if not p["smooth"]:
            w = a / (2 * p["tau"])
            expected = (1 + w * T) * np.exp(-w * T)
            case.close(s, expected, 0.08, "critically damped approach",
                       scale=1.0)
        case.seen(s)


def state_following(case):
    """Common via point: settles there."""
    rng = case.rng
    p = kinds.random_params(rng, "sf", critical=True)
    g = rng.normal(size=p["n_dims"]) * p["scale"]
    p["viapoints"][:] = g
    case.note(**kinds.describe(p))
    T, Y = kinds.open_loop(kinds.make(p), p, 4 * p["tau"])
    case.check(np.all(np.isfinite(Y)), "states are finite")
    case.close(Y[-1], g, 1e-4, "settles at the via point",
               scale=kinds.state_scale(p))


GROUPS = [
    Group("settles", settles, 400, 4000),
    Group("straight", straight, 240, 2400),
    Group("state_following", state_following, 80, 800),
]
