"""Smooth scaling removes the initial acceleration jump."""
import numpy as np

from .. import kinds, ref
from . import c09
from ..core import Group

PROPERTY = "C12"
TECHNIQUE = ("runtime monitor of the first executed accelerations of twins "
             "that differ in the goal")
RULE = ("Pairs of DMPs that differ in their goal only, with random weights "
        "or learned, step sizes going to zero.")
ASSUMPTIONS = ["orientations differ by less than a half turn"]
KINDS = ("dmp", "cart", "dual")


def goal_distance(p, a, b):
    """Goal minus start as vector of velocity dimensions."""
    d = np.zeros(p["n_vel"])
    pd, pv = kinds.pos_dims(p)
    d[pv] = a[pd] - b[pd]
    for q, v in kinds.ori_dims(p):
        d[v] = ref.qlog(ref.qmul(a[q], ref.qconj(b[q])))
    return d


def moved(rng, p, amount=1.0):
    g = p["goal_y"] + rng.normal(size=p["n_pos"]) * p["scale"] * amount
    for q, _ in kinds.ori_dims(p):
        g[q] = kinds.rot_by(rng, p["start_y"][q], rng.uniform(0.1, 2.5))
    return g


def first_acceleration(p, smooth, dt):
    q = kinds.clone(p, smooth=smooth, dt=dt, int_dt=dt)
    _, yd = kinds.step(kinds.make(q), q, np.copy(p["start_y"]),
                       np.copy(p["start_yd"]))
    return (yd - p["start_yd"]) / dt


def start(case):
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = kinds.random_params(rng, kind)
    h = kinds.clone(p, goal_y=moved(rng, p))
    a, b = kinds.full_gains(p)
    dt = p["tau"] * 1e-4
    jump = a * b * (goal_distance(p, h["goal_y"], p["start_y"])
                    - goal_distance(p, p["goal_y"], p["start_y"])) \
        / p["tau"] ** 2
    case.note(moved_goal=h["goal_y"], **kinds.describe(p))
    for dt in (1e-3 * p["tau"], 1e-4 * p["tau"]):
        A = first_acceleration(p, True, dt)
        B = first_acceleration(h, True, dt)
        limit = np.linalg.norm(jump) * 60 * dt / p["tau"] + 1e-7 * (
            np.linalg.norm(A) + 1.0 / p["tau"] ** 2)
        case.seen(A)
        case.check(np.all(np.abs(A - B) <= limit),
                   "goal changes the initial acceleration", difference=A - B,
                   limit=limit, jump=jump)
        C = first_acceleration(p, False, dt)
        D = first_acceleration(h, False, dt)
        case.close(D - C, jump, 60 * dt / p["tau"] + 1e-6,
                   "attractor without smooth scaling",
                   scale=np.linalg.norm(jump) + 1e-6 * np.linalg.norm(C)
                   + 1e-9)
        # both use the same weights, so they differ by the smoothing term only
        g = a * b * goal_distance(p, p["goal_y"], p["start_y"]) \
            / p["tau"] ** 2
        case.close(C - A, g, 60 * dt / p["tau"] + 1e-6,
                   "smoothing cancels the attractor at the start",
                   scale=np.linalg.norm(g) + 1e-6 * np.linalg.norm(C) + 1e-9)
    case.event("accelerations_compared", 8)


def early(case):
    """The influence of the goal grows gradually."""
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = kinds.random_params(rng, kind)
    p["smooth"] = True
    p["dt"] = p["tau"] / 1000
    p["int_dt"] = p["dt"]
    h = kinds.clone(p, goal_y=moved(rng, p))
    a, b = kinds.full_gains(p)
    case.note(moved_goal=h["goal_y"], **kinds.describe(p))
    run_t = 0.1 * p["tau"]
    S, A = kinds.open_loop(kinds.make(p), p, run_t)
    _, B = kinds.open_loop(kinds.make(h), h, run_t)
    s = (S + 2 * p["dt"]) / p["tau"]
    pd, pv = kinds.pos_dims(p)
    # double integral of the part of the attractor that is not cancelled
    grow = ref.ALPHA_Z * s ** 3 / 6
    if len(pd):
        jump = np.abs(a * b * goal_distance(p, h["goal_y"], p["goal_y"]))[pv]
        d = np.abs(A - B)[:, pd]
        limit = 1.05 * grow[:, np.newaxis] * jump + 1e-9 * p["scale"]
        case.check(np.all(d <= limit), "early motion depends on goal",
                   ratio=np.max(d / limit))
        case.worst["early position"] = (float(np.max(d / limit)),)
    for q, v in kinds.ori_dims(p):
        j = np.linalg.norm(a[v] * b[v]) * (
            np.linalg.norm(goal_distance(p, h["goal_y"], p["start_y"])[v])
            + np.linalg.norm(goal_distance(p, p["goal_y"], p["start_y"])[v]))
        d = ref.qdist(A[:, q], B[:, q])
        limit = 2.0 * grow * j + 1e-7 + 0.02 * s ** 2
        case.check(np.all(d <= limit), "early rotation depends on goal",
                   ratio=np.max(d / limit))
        case.worst["early orientation"] = (float(np.max(d / limit)),)
    case.seen(A)
    case.event("states_compared", len(A))
    # still ends at the new goal
    h = kinds.clone(h, dt=p["tau"] / 50, int_dt=p["tau"] / 200,
                    alpha=25.0, beta=6.25)
    Y = kinds.open_loop(kinds.make(h), h, 2.5 * p["tau"])[1]
    case.close(Y[-1][pd], h["goal_y"][pd], 2e-3, "ends at the moved goal",
               scale=kinds.state_scale(h)[pd])
    for q, _ in kinds.ori_dims(p):
        case.close(ref.qdist(Y[-1][q], h["goal_y"][q]), 0.0, 5e-3,
                   "ends at the moved orientation", scale=1.0)


def reproduction(case):
    """Learned movements, goal not moved: the flag does not matter."""
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = c09.params(rng, kind)
    T, Y = kinds.demonstration(rng, p, n=300)
    m = 100
    p["dt"] = p["tau"] / m
    p["int_dt"] = p["dt"] / 2
    case.note(**kinds.describe(p))
    X = []
    for smooth in (False, True):
        q = kinds.clone(p, smooth=smooth)
        obj = kinds.construct(q)
        obj.imitate(T, np.copy(Y))
        S, x = c09.converged(obj, q, m)
        D = c09.resample(p, T, Y, S)
        case.close(np.max(c09.error(p, x, D)), 0.0, 0.03,
                   "reproduces, smooth=%s" % smooth, scale=1.0)
        X.append(x)
    case.seen(X[0])
    case.close(np.max(c09.error(p, X[0], X[1])), 0.0, 0.03,
               "flag changes the learned movement", scale=1.0)


def learned_and_moved(case):
    """A learned movement whose goal is moved starts like the original."""
    rng = case.rng
    kind = KINDS[case.index % 3]
    p = c09.params(rng, kind)
    p["smooth"] = True
    T, Y = kinds.demonstration(rng, p, n=300)
    p["dt"] = p["tau"] / 1000
    p["int_dt"] = p["dt"]
    case.note(**kinds.describe(p))
    a, b = kinds.construct(p), kinds.construct(p)
    a.imitate(T, np.copy(Y))
    b.imitate(T, np.copy(Y))
    g = moved(rng, p, 3.0)
    b.configure(goal_y=g)
    S, A = kinds.open_loop(a, p, 0.05 * p["tau"])
    _, B = kinds.open_loop(b, p, 0.05 * p["tau"])
    ga, gb = kinds.full_gains(p)
    d = np.abs(goal_distance(p, g, p["start_y"])
               - goal_distance(p, p["goal_y"], p["start_y"]))
    s = (S[-1] + 2 * p["dt"]) / p["tau"]
    e = np.abs(goal_distance(p, A[-1], B[-1]))
    limit = 1.5 * np.max(ga * gb) * ref.ALPHA_Z * s ** 3 / 6 * np.max(d)
    case.seen(A)
    case.check(np.all(e <= limit), "moved goal disturbs the beginning",
               ratio=np.max(e / limit))
    case.worst["moved"] = (float(np.max(e / limit)),)


GROUPS = [
    Group("start", start, 360, 3600),
    Group("early", early, 240, 2400),
    Group("reproduction", reproduction, 90, 900),
    Group("learned_and_moved", learned_and_moved, 120, 1200),
]
