"""Compiled and pure Python code give the same motion."""
import copy

import numpy as np

from .. import kinds, peer, ref
from ..core import Group

PROPERTY = "C01"
TECHNIQUE = ("runtime differential monitor: compiled and Python step "
             "functions run in lock step, second process without extension")
RULE = ("Random settings, states, times and histories are executed with the "
        "compiled and with the Python version of every step function, helper "
        "and default; a second process runs without the extension.")
ASSUMPTIONS = [
    "times after the start of the movement (as produced by stepping)",
    "coupling and tracking histories use binary step sizes so that both "
    "versions take the same number of integration steps",
    "orientations stay away from the half turn to the goal, where rounding "
    "decides about the direction of the shortest rotation"]
TOL = 1e-8


class Coupling:
    """Memoryless coupling of velocity and acceleration."""

    def __init__(self, p, rng, velocity):
        tau = p["tau"]
        n = p["n_vel"]
        self.velocity = velocity
        a, b = kinds.full_gains(p)
        self.k = rng.uniform(0.0, 0.1) * np.min(a * b)
        self.c = rng.uniform(0.0, 1.0) * tau
        self.v = rng.uniform(-0.002, 0.002, size=n)

    def coupling(self, y, yd):
        cd = np.zeros_like(yd)
        if self.velocity:
            cd = self.v[:len(yd)] * np.cos(y[-1]) + 0.001 * yd
        return cd, -self.c * yd - self.k * np.sin(y[-1])


PAIRS = {
    "dmp": [("rk4", "rk4-cython"), ("euler", "euler-cython")],
    "cart": [(("rk4", "python"), ("rk4-cython", "cython")),
             (("euler", "python"), ("euler-cython", "cython")),
             (("rk4", "cython"), ("rk4", "python"))],
    "dual": [("python", "cython")],
}


def history(rng, p, n):
    """What happens before each step, the same for both versions."""
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.06:
            ops.append(("goal", kinds.random_state(rng, p, p["scale"])))
        elif r < 0.2:
            d = rng.normal(size=p["n_vel"]) * 0.02
            d[kinds.pos_dims(p)[1]] *= p["scale"]
            ops.append(("push", d))
        else:
            ops.append(("none", None))
    return ops


def displaced(p, y, d):
    """State y moved by a small displacement."""
    y = np.copy(y)
    pd, pv = kinds.pos_dims(p)
    y[pd] += d[pv]
    for s, v in kinds.ori_dims(p):
        y[s] = ref.qmul(ref.qexp(d[v]), y[s])
    return y


def play(p, ops, coupling, variant):
    obj = kinds.make(p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    Y, Yd = [], []
    for op, arg in ops:
        if op == "goal":
            g = np.copy(arg)
            for s, _ in kinds.ori_dims(p):
                g[s] = p["goal_y"][s]
            obj.configure(goal_y=g)
        elif op == "push":
            y = displaced(p, y, arg)
        y, yd = kinds.step(obj, p, y, yd, coupling, variant)
        Y.append(np.copy(y))
        Yd.append(np.copy(yd))
    return np.array(Y), np.array(Yd)


def binary_steps(rng, p):
    """Step sizes whose multiples are exact."""
    h = 2.0 ** np.floor(np.log2(kinds.largest_step(p)))
    p["dt"] = h
    p["int_dt"] = h / float(rng.choice([0.5, 1, 2, 4, 8]))


def stepping(case):
    rng = case.rng
    kind = ("dmp", "dmp", "cart", "dual")[case.index % 4]
    p = kinds.random_params(rng, kind, p_gain=rng.random() < 0.5)
    pair = PAIRS[kind][rng.integers(len(PAIRS[kind]))]
    coupling = None
    binary_steps(rng, p)
    if rng.random() < 0.5:
        coupling = Coupling(p, rng, velocity=rng.random() < 0.5)
    n = min(int(rng.choice([1.0, 1.5, 3.0]) * p["tau"] / p["dt"]) + 1, 160)
    ops = history(rng, p, n)
    case.note(pair=pair, n=n, coupling=coupling is not None,
              **kinds.describe(p))
    A = play(p, ops, coupling, pair[0])
    B = play(p, ops, coupling, pair[1])
    case.event("steps", 2 * n)
    s = max(1.0, np.max(np.abs(A[0]))) if p["scale"] > 1 else 1.0
    s = kinds.state_scale(p) * s
    case.close(A[0], B[0], TOL, "states of both versions", scale=s)
    case.close(A[1], B[1], TOL * 10, "velocities of both versions",
               scale=kinds.velocity_scale(p) * max(
                   1.0, np.max(np.abs(A[1] / kinds.velocity_scale(p)))))


def open_loop(case):
    rng = case.rng
    kind = ("dmp", "cart", "dual")[case.index % 3]
    p = kinds.random_params(rng, kind)
    pair = PAIRS[kind][rng.integers(len(PAIRS[kind]))]
    run_t = p["tau"] * float(rng.choice([0.5, 1.0, 1.5]))
    coupling = Coupling(p, rng, velocity=False) if rng.random() < 0.4 else None
    case.note(pair=pair, run_t=run_t, **kinds.describe(p))
    Ta, A = kinds.open_loop(kinds.make(p), p, run_t, coupling, pair[0])
    Tb, B = kinds.open_loop(kinds.make(p), p, run_t, coupling, pair[1])
    case.equal(Ta, Tb, "times of both versions")
    case.close(A, B, TOL, "trajectories of both versions",
               scale=kinds.state_scale(p))
    # the default is one of the offered versions
    _, C = kinds.open_loop(kinds.make(p), p, run_t, coupling, kinds.DEFAULT)
    offered = {"dmp": ["rk4", "euler"], "dual": ["python"],
               "cart": [("rk4", "python"), ("euler", "python")]}[kind]
    d = [np.max(np.abs(C - kinds.open_loop(
        kinds.make(p), p, run_t, coupling, v)[1]) / kinds.state_scale(p))
        for v in offered]
    case.check(min(d) < TOL, "default differs from all Python versions",
               deviations=d)


class ConstantForcing:
    """Recorded forcing term: what a step function gets to see."""

    def __init__(self, p):
        self.p = p

    def phase(self, t):
        return np.exp(-ref.ALPHA_Z * np.asarray(t) / self.p["tau"]) \
            if np.ndim(t) else float(ref.phase(t, self.p["tau"]))

    def forcing_term(self, z):
        t = -np.log(z) * self.p["tau"] / ref.ALPHA_Z
        f = ref.forcing(t, self.p["tau"], self.p["weights"])
        return f if np.ndim(t) else f.reshape(-1, 1)


def direct(case):
    """Single calls of the step functions with arbitrary arguments."""
    rng = case.rng
    which = ("rk4", "euler", "q", "d")[case.index % 4]
    kind = {"rk4": "dmp", "euler": "dmp", "q": "sdo", "d": "dual"}[which]
    a, b = {"rk4": ("rk4", "rk4-cython"), "euler": ("euler", "euler-cython"),
            "q": ("qpython", "qcython"), "d": ("dpython", "dcython")}[which]
    if a not in kinds.CALLABLES or b not in kinds.CALLABLES:
        # internal names moved, stepping still covers the functions
        case.seen(rng.random(3))
        case.check(True, "not available")
        return
    if kind == "sdo":
        p = kinds.random_params(rng, "cart")
        for k in ("start_y", "goal_y"):
            p[k] = p[k][3:]
        for k in ("start_yd", "goal_yd"):
            p[k] = p[k][3:]
        p["weights"] = p["weights"][3:]
        al, be = [g[3:].copy() for g in kinds.full_gains(p)]
        p["n_pos"], p["n_vel"] = 4, 3
        p["kind"] = "sdo"
    else:
        p = kinds.random_params(rng, kind)
        al, be = kinds.full_gains(p)
    n = p["n_vel"]
    start_t = 0.0
    if rng.random() < 0.3 and which != "d":
        start_t = rng.uniform(-1.0, 1.0) * p["tau"]
    h = 2.0 ** np.floor(np.log2(0.03 * p["tau"]))
    start_t = np.round(start_t / h) * h
    last_t = start_t + h * rng.integers(0, 60)
    t = last_t + h
    int_dt = h / float(rng.choice([0.5, 1, 2, 5, 8]))
    shifted = kinds.clone(p)
    forcing = ConstantForcing(shifted)
    if start_t != 0.0:
        original = forcing.phase
        forcing.phase = lambda t: original(np.asarray(t) - start_t
                                           if np.ndim(t) else t - start_t)
    y = kinds.random_state(rng, p, p["scale"])
    for s, _ in kinds.ori_dims(p):
        y[s] = kinds.rot_by(rng, p["goal_y"][s], rng.uniform(0, np.pi))
        if rng.random() < 0.5:
            y[s] *= -1.0
    yd = rng.normal(size=n) * (p["scale"] if kind == "dmp" else 1.0) / p["tau"]
    goal_yd, goal_ydd, start_ydd = rng.normal(size=(3, n))
    kw = {"int_dt": int_dt, "smooth_scaling": p["smooth"]}
    r = rng.random()
    if r < 0.3:
        if p["alpha"] is not None:
            kw["coupling_term"] = Coupling(
                dict(p, alpha=al, beta=be), rng, rng.random() < 0.5)
    elif r < 0.6 and which != "d":
        kw["coupling_term_precomputed"] = (
            rng.normal(size=n) * 0.01, rng.normal(size=n) * 10.0)
    if which != "q" and rng.random() < 0.5:
        kw["p_gain"] = rng.uniform(0, 1)
        te = rng.normal(size=p["n_pos"]) * 0.05
        for s, _ in kinds.ori_dims(p):
            te[s] = kinds.rot_by(rng, np.array([1.0, 0, 0, 0]), 0.1)
        kw["tracking_error"] = te
    elif which in ("rk4", "euler"):
        kw["tracking_error"] = np.zeros(n)
    case.note(which=which, start_t=start_t, last_t=last_t, t=t,
              options=sorted(kw), **kinds.describe(p))
    results = []
    for f in (a, b):
        cy, cyd = np.copy(y), np.copy(yd)
        args = [copy.copy(x) for x in (
            p["goal_y"], goal_yd, goal_ydd, p["start_y"], p["start_yd"],
            start_ydd)]
        kept = copy.deepcopy(args)
        kinds.CALLABLES[f](
            last_t, t, cy, cyd, *args, start_t + p["tau"], start_t, al, be,
            forcing, **kw)
        for x, k in zip(args, kept):
            case.equal(x, k, "arguments unchanged by " + f)
        results.append((cy, cyd))
    scale = max(1.0, np.max(np.abs(results[0][0])))
    case.close(results[0][0], results[1][0], 1e-10, "next state", scale=scale)
    case.close(results[0][1], results[1][1], 1e-10, "next velocity",
               scale=max(np.max(np.abs(results[0][1])), scale / p["tau"]))


def phase(case):
    from movement_primitives.dmp import phase as p1
    from movement_primitives.dmp._canonical_system import phase as p2
    from movement_primitives.dmp_fast import phase as p3
    rng = case.rng
    start = rng.normal() * 3
    goal = start + kinds.logu(rng, 0.01, 100)
    alpha = kinds.logu(rng, 0.1, 20.0)
    T = start + (goal - start) * np.concatenate(
        (rng.uniform(-0.5, 3.0, size=20), [0.0, 1.0]))
    case.note(start=start, goal=goal, alpha=alpha)
    A, B, C = [np.asarray(f(T, alpha, goal, start)) for f in (p1, p2, p3)]
    D = np.exp(-alpha * (T - start) / (goal - start))
    for X in (A, B, C):
        case.close(X, D, 1e-9, "phase of array", scale=np.maximum(D, 1e-300))
    for t, d in zip(T, D):
        for f in (p1, p2, p3):
            z = f(float(t), alpha, goal, start)
            case.check(np.ndim(z) == 0, "phase of a number is a number")
            case.close(z, d, 1e-9, "phase", scale=max(d, 1e-300))


def helpers(case):
    from movement_primitives import dmp_fast as f
    from movement_primitives.dmp import (
        obstacle_avoidance_acceleration_2d, CouplingTermObstacleAvoidance2D)
    rng = case.rng
    a, b = kinds.quat(rng), kinds.quat(rng)
    case.note(a=a, b=b)
    case.close(f.concatenate_quaternions(a.copy(), b.copy()), ref.qmul(a, b),
               1e-12, "quaternion product", scale=1.0)
    if rng.random() < 0.3:  # close to identity
        a = ref.qexp(rng.normal(size=3) * kinds.logu(rng, 1e-9, 1e-3))
        a *= rng.choice([-1.0, 1.0])
    if abs(a[0]) > 1e-6:  # half turns have two rotation vectors
        case.close(f.compact_axis_angle_from_quaternion(a.copy()),
                   ref.qlog(a), 1e-6, "rotation vector of quaternion",
                   scale=1.0)
    else:
        r = f.compact_axis_angle_from_quaternion(a.copy())
        case.check(abs(np.linalg.norm(r) - np.pi) < 1e-5,
                   "half turn has rotation vector of length pi")
    r = rng.normal(size=3) * kinds.logu(rng, 1e-6, 3.0)
    if hasattr(f, "matrix_from_compact_axis_angle"):
        case.close(f.matrix_from_compact_axis_angle(r.copy()), ref.rotmat(r),
                   1e-9, "matrix of rotation vector", scale=1.0)
    y, o = rng.normal(size=(2, 2)) * kinds.logu(rng, 0.01, 100.0)
    yd = rng.normal(size=2) * kinds.logu(rng, 1e-3, 100.0)
    u = rng.random()
    if u < 0.1:
        yd = np.zeros(2)
    elif u < 0.2:
        yd = (o - y) * rng.choice([-1.0, 1.0]) * rng.uniform(0.1, 2.0)
    gamma, beta = rng.uniform(1, 2000), rng.uniform(0.5, 15.0)
    A = obstacle_avoidance_acceleration_2d(y, yd, o, gamma, beta)
    B = f.obstacle_avoidance_acceleration_2d(
        y.copy(), yd.copy(), o.copy(), gamma, beta)
    C = CouplingTermObstacleAvoidance2D(
        o.copy(), gamma, beta, fast=True).coupling(y.copy(), yd.copy())[1]
    D = CouplingTermObstacleAvoidance2D(
        o.copy(), gamma, beta).coupling(y.copy(), yd.copy())[1]
    s = gamma * max(np.linalg.norm(yd), 1e-12)
    # the angle is badly conditioned when heading exactly to the obstacle
    for X, name in ((B, "compiled"), (C, "fast"), (D, "coupling term")):
        case.close(np.squeeze(A), X, 1e-7, "obstacle avoidance " + name,
                   scale=s)


def trace(p, demo, run_t):
    """Everything a user can do with the defaults. Runs in both processes."""
    out = []
    obj = kinds.make(p)
    T, Y = kinds.open_loop(obj, p, run_t, None, kinds.DEFAULT)
    out += [T, Y]
    Y, Yd = kinds.rollout(kinds.make(p), p, 20, None, kinds.DEFAULT)
    out += [Y, Yd]
    if demo is not None:
        obj = kinds.construct(p)
        obj.imitate(np.copy(demo[0]), np.copy(demo[1]))
        out += list(kinds.open_loop(obj, p, run_t, None, kinds.DEFAULT))
    return out


def without_extension(case):
    rng = case.rng
    kind = kinds.ALL_KINDS[case.index % len(kinds.ALL_KINDS)]
    p = kinds.random_params(rng, kind)
    demo = None
    if kind in kinds.DMP_KINDS:
        T = np.linspace(0, p["tau"], 60)
        s = (T / p["tau"])[:, np.newaxis]
        s = 10 * s ** 3 - 15 * s ** 4 + 6 * s ** 5
        Y = p["start_y"] + s * (p["goal_y"] - p["start_y"])
        for o, _ in kinds.ori_dims(p):
            d = ref.qlog(ref.qmul(p["goal_y"][o], ref.qconj(p["start_y"][o])))
            Y[:, o] = ref.qmul(ref.qexp(s * d), p["start_y"][o])
        demo = (T, Y)
    run_t = p["tau"] * float(rng.choice([0.5, 1.0, 1.4]))
    case.note(run_t=run_t, **kinds.describe(p))
    A = trace(p, demo, run_t)
    B = peer.peer("none").call("mpv.props.c01:trace", p, demo, run_t)
    case.check(len(A) == len(B), "same number of results")
    case.event("traces_without_extension")
    for i, (x, y) in enumerate(zip(A, B)):
        if i == 3:
            s = kinds.velocity_scale(p) * 10
        elif np.shape(x)[-1:] == (p["n_pos"],):
            s = kinds.state_scale(p)
        else:
            s = p["tau"]
        # learned weights may differ in directions that do not matter
        case.close(x, y, 1e-5 if i > 3 else TOL,
                   "with and without extension, part %d" % i, scale=s)


GROUPS = [
    Group("stepping", stepping, 500, 5000),
    Group("open_loop", open_loop, 240, 2400),
    Group("direct", direct, 1200, 12000),
    Group("phase", phase, 100, 1000),
    Group("helpers", helpers, 1500, 20000),
    Group("without_extension", without_extension, 210, 2100),
]
