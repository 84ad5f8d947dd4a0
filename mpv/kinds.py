"""Uniform access to all primitive kinds and random settings for them."""
import copy
import importlib

import numpy as np

from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, CartesianDMP, DualCartesianDMP,
    StateFollowingDMP)
from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory

from . import ref

DMP_KINDS = ("dmp", "fv", "cart", "dual")
ALL_KINDS = DMP_KINDS + ("sf", "sd", "sdo")
DMP_STEPS = ("rk4", "euler", "euler-cython", "rk4-cython")
QSTEPS = ("python", "cython")
DEFAULT = "default"


def variants(kind):
    """Names of integrators of a kind."""
    if kind == "dmp":
        return [DEFAULT] + list(DMP_STEPS)
    if kind == "cart":
        return [DEFAULT] + [(a, b) for a in DMP_STEPS for b in QSTEPS]
    if kind == "dual":
        return [DEFAULT] + list(QSTEPS)
    return [DEFAULT]


def _find(module, name):
    try:
        return getattr(importlib.import_module(
            "movement_primitives." + module), name)
    except (ImportError, AttributeError):
        return None


def _callables():
    """Step functions that can be passed to the Cartesian DMPs."""
    found = {
        "rk4": _find("dmp._dmp", "dmp_step_rk4"),
        "euler": _find("dmp._dmp", "dmp_step_euler"),
        "rk4-cython": _find("dmp_fast", "dmp_step_rk4"),
        "euler-cython": _find("dmp_fast", "dmp_step"),
        "qpython": _find("dmp._cartesian_dmp", "dmp_step_quaternion_python"),
        "qcython": _find("dmp_fast", "dmp_step_quaternion"),
        "dpython": _find("dmp._dual_cartesian_dmp",
                         "dmp_step_dual_cartesian_python"),
        "dcython": _find("dmp_fast", "dmp_step_dual_cartesian"),
    }
    return {k: v for k, v in found.items() if v is not None}


CALLABLES = _callables()


# random numbers -------------------------------------------------------------

def logu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def quat(rng):
    """Random orientation, sometimes a special one."""
    r = rng.random()
    if r < 0.06:
        q = np.array([1.0, 0.0, 0.0, 0.0])
    elif r < 0.1:
        q = np.zeros(4)
        q[rng.integers(1, 4)] = 1.0
    elif r < 0.16:
        q = ref.qexp(rng.normal(size=3) * 1e-3)
    else:
        q = rng.normal(size=4)
        q /= np.linalg.norm(q)
    if rng.random() < 0.5:
        q = -q
    return q


def rot_by(rng, q, angle):
    """Orientation that differs from q by a rotation by angle."""
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    out = ref.qmul(ref.qexp(axis * angle), q)
    return out / np.linalg.norm(out)


def quat_pair(rng, max_angle=np.pi - 0.05):
    """Two orientations, their rotation is at most max_angle."""
    a = quat(rng)
    r = rng.random()
    if r < 0.1:
        b = np.copy(a)
    elif r < 0.25:
        b = rot_by(rng, a, max_angle)
    else:
        b = rot_by(rng, a, rng.uniform(0.01, max_angle))
    if rng.random() < 0.5:
        b = -b
    return a, b


def exec_time(rng):
    if rng.random() < 0.5:
        return float(rng.choice([0.1, 0.3, 0.5, 0.7, 1.0, 1.3, 2.0, 2.5, 5.0,
                                 10.0, 20.0, 60.0, 200.0]))
    if rng.random() < 0.05:
        return logu(rng, 0.02, 500.0)
    return logu(rng, 0.05, 60.0)


def gains(rng, n, critical=False, scalar=None):
    """alpha_y, beta_y as accepted by the constructors."""
    if scalar is None:
        scalar = rng.random() < 0.35
    if rng.random() < 0.2:
        return 25.0, 6.25
    a = rng.uniform(10.0, 40.0, size=n)
    b = a / 4.0 if critical else a * rng.uniform(0.1, 0.6, size=n)
    if scalar:
        return float(a[0]), float(b[0])
    if rng.random() < 0.3:
        return a.tolist(), b
    return a, b


N_POS = {"cart": 7, "dual": 14, "sdo": 4}
N_VEL = {"cart": 6, "dual": 12, "sdo": 3}
ORI = {"cart": [(slice(3, 7), slice(3, 6))],
       "dual": [(slice(3, 7), slice(3, 6)), (slice(10, 14), slice(9, 12))],
       "sdo": [(slice(0, 4), slice(0, 3))]}
POS = {"cart": (list(range(3)), list(range(3))),
       "dual": ([0, 1, 2, 7, 8, 9], [0, 1, 2, 6, 7, 8]),
       "sdo": ([], [])}


def pos_dims(p):
    """Indices of positional dimensions in state and velocity."""
    if p["kind"] in POS:
        return POS[p["kind"]]
    return list(range(p["n_dims"])), list(range(p["n_dims"]))


def ori_dims(p):
    return ORI.get(p["kind"], [])


def random_state(rng, p, scale=1.0):
    y = rng.normal(size=p["n_pos"]) * scale
    for s, _ in ori_dims(p):
        y[s] = quat(rng)
    return y


def largest_step(p):
    if p["kind"] in ("sd", "sdo"):
        c = 2.0 * np.sqrt(p["k"]) if p["c"] is None else p["c"]
        return 0.8 / max(c, np.sqrt(p["k"]))
    a = np.max(p["alpha"])
    return p["tau"] * (0.45 if p["kind"] == "sf" else 0.9) / a


def random_params(rng, kind, critical=False, n_dims=None, weights=True,
                  max_angle=2.0, fast=True, p_gain=False,
                  step_ratio=None, start_velocity=True):
    """Settings of one primitive. Everything needed to build it is in here."""
    p = {"kind": kind}
    if n_dims is None:
        n_dims = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 20],
                                p=[.2, .25, .2, .08, .05, .09, .08, .03,
                                   .02]))
    p["n_dims"] = N_POS.get(kind, n_dims)
    p["n_pos"] = N_POS.get(kind, n_dims)
    p["n_vel"] = N_VEL.get(kind, n_dims)
    tau = exec_time(rng)
    p["tau"] = tau
    if step_ratio is None:
        step_ratio = float(rng.choice(
            [1 / 16, 1 / 25, 1 / 50, 1 / 64, 0.013, 0.0271]))
    p["dt"] = tau * step_ratio
    p["alpha"], p["beta"] = gains(rng, p["n_vel"], critical)
    if kind in ("sd", "sdo"):
        p["k"] = logu(rng, 0.5, 200.0) / tau ** 2
        p["c"] = None if rng.random() < 0.4 \
            else 2.0 * np.sqrt(p["k"]) * logu(rng, 0.2, 3.0)
        p["alpha"] = p["beta"] = None
    # larger steps make explicit integrators unstable
    p["dt"] = min(p["dt"], largest_step(p))
    r = rng.random()
    if r < 0.15:
        p["int_dt"] = p["dt"] * 1.7   # larger than the step
    elif r < 0.3:
        p["int_dt"] = p["dt"]
    elif r < 0.7:
        p["int_dt"] = p["dt"] / 4
    else:
        p["int_dt"] = p["dt"] * rng.uniform(0.15, 0.9)
    if not fast:
        p["int_dt"] = min(p["int_dt"], tau / 400)
    p["n_weights"] = int(rng.choice([2, 3, 4, 5, 7, 10, 10, 10, 17, 30, 50,
                                    100]))
    p["smooth"] = bool(rng.random() < 0.5) and kind in ("dmp", "cart", "dual")
    p["p_gain"] = 0.0
    if p_gain and kind in ("dmp", "fv", "dual"):
        p["p_gain"] = logu(rng, 1e-3, 1.0) * p["dt"] * tau
    scale = logu(rng, 0.05, 20.0)
    p["scale"] = scale
    p["start_y"] = random_state(rng, p, scale)
    p["goal_y"] = random_state(rng, p, scale)
    for s, _ in ori_dims(p):
        p["start_y"][s], p["goal_y"][s] = quat_pair(rng, max_angle)
    p["start_yd"] = np.zeros(p["n_vel"])
    if start_velocity and rng.random() < 0.5:
        p["start_yd"] = rng.normal(size=p["n_vel"]) / tau
        pv = pos_dims(p)[1]
        p["start_yd"] *= 0.5
        p["start_yd"][pv] *= 2.0 * scale
    # goal velocity and accelerations of primitives that do not use them
    p["unused"] = 0.0
    if kind != "fv" and rng.random() < 0.3:
        p["unused"] = rng.normal() * scale / tau
    p["goal_yd"] = np.zeros(p["n_vel"])
    if kind == "fv" and rng.random() < 0.7:
        p["goal_yd"] = rng.normal(size=p["n_vel"]) * scale / tau
    p["weights"] = np.zeros((p["n_vel"], p["n_weights"]))
    if weights and kind in DMP_KINDS:
        # orientations stay away from the half turn, where the shortest
        # rotation to the goal jumps and rounding errors would be amplified
        a, b = full_gains(p)
        amp = 0.15 * a * b
        amp[pos_dims(p)[1]] = 60.0 * scale
        p["weights"] = rng.normal(size=(p["n_vel"], p["n_weights"])) \
            * amp[:, np.newaxis]
    if kind == "sf":
        p["viapoints"] = rng.normal(size=(p["n_weights"], p["n_dims"])) * scale
    p["variant"] = variants(kind)[rng.integers(len(variants(kind)))]
    return p


def describe(p):
    return {k: v for k, v in p.items() if k not in ("weights",)}


def full_gains(p):
    a = np.broadcast_to(np.asarray(p["alpha"], dtype=float), (p["n_vel"],))
    b = np.broadcast_to(np.asarray(p["beta"], dtype=float), (p["n_vel"],))
    return np.array(a), np.array(b)


# objects --------------------------------------------------------------------

def construct(p):
    """Primitive with default configuration."""
    kind = p["kind"]
    kw = dict(dt=p["dt"], int_dt=p["int_dt"])
    if kind in ("dmp", "fv"):
        cls = DMPWithFinalVelocity
        if kind == "dmp":
            cls = DMP
            kw["smooth_scaling"] = p["smooth"]
        return cls(p["n_dims"], execution_time=p["tau"],
                   n_weights_per_dim=p["n_weights"], p_gain=p["p_gain"],
                   alpha_y=p["alpha"], beta_y=p["beta"], **kw)
    if kind == "cart":
        return CartesianDMP(
            execution_time=p["tau"], n_weights_per_dim=p["n_weights"],
            smooth_scaling=p["smooth"], alpha_y=p["alpha"], beta_y=p["beta"],
            **kw)
    if kind == "dual":
        return DualCartesianDMP(
            execution_time=p["tau"], n_weights_per_dim=p["n_weights"],
            p_gain=p["p_gain"], smooth_scaling=p["smooth"],
            alpha_y=p["alpha"], beta_y=p["beta"], **kw)
    if kind == "sf":
        return StateFollowingDMP(
            p["n_dims"], p["tau"], n_viapoints=p["n_weights"],
            alpha_y=p["alpha"], beta_y=p["beta"], **kw)
    if kind == "sd":
        return SpringDamper(p["n_dims"], k=p["k"], c=p["c"], **kw)
    if kind == "sdo":
        return SpringDamperOrientation(k=p["k"], c=p["c"], **kw)
    if kind == "mj":
        return MinimumJerkTrajectory(p["n_dims"], p["tau"], dt=p["dt"])
    raise KeyError(kind)


def configure(obj, p):
    kw = dict(start_y=np.copy(p["start_y"]), goal_y=np.copy(p["goal_y"]),
              start_yd=np.copy(p["start_yd"]))
    if p["kind"] == "fv":
        kw["goal_yd"] = np.copy(p["goal_yd"])
        kw["start_ydd"] = np.zeros(p["n_vel"])
        kw["goal_ydd"] = np.zeros(p["n_vel"])
    elif p.get("unused"):
        for i, k in enumerate(("goal_yd", "goal_ydd", "start_ydd")):
            kw[k] = p["unused"] * np.cos(np.arange(p["n_vel"]) + i)
    if p["kind"] == "sf":
        kw.pop("goal_y")
    obj.configure(**kw)


def set_weights(obj, p, weights=None):
    if p["kind"] in DMP_KINDS:
        w = p["weights"] if weights is None else weights
        obj.set_weights(np.array(w, dtype=float).ravel())
    elif p["kind"] == "sf":
        obj.forcing_term.viapoints[:, :] = p["viapoints"]


def make(p):
    obj = construct(p)
    set_weights(obj, p)
    configure(obj, p)
    return obj


def step(obj, p, y, yd, coupling_term=None, variant=None):
    """One step with the chosen integrator."""
    variant = p["variant"] if variant is None else variant
    kw = {}
    if coupling_term is not None:
        kw["coupling_term"] = coupling_term
    if variant != DEFAULT:
        if p["kind"] == "dmp":
            kw["step_function"] = variant
        elif p["kind"] == "cart":
            if variant[0] in CALLABLES:
                kw["step_function"] = CALLABLES[variant[0]]
            if "q" + variant[1] in CALLABLES:
                kw["quaternion_step_function"] = CALLABLES["q" + variant[1]]
        elif p["kind"] == "dual" and "d" + variant in CALLABLES:
            kw["step_function"] = CALLABLES["d" + variant]
    return obj.step(y, yd, **kw)


def open_loop(obj, p, run_t=None, coupling_term=None, variant=None):
    variant = p["variant"] if variant is None else variant
    kw = {}
    if coupling_term is not None:
        kw["coupling_term"] = coupling_term
    if variant != DEFAULT:
        if p["kind"] == "cart":
            kw["step_function"], kw["quaternion_step_function"] = variant
        else:
            kw["step_function"] = variant
    if run_t is None and p["kind"] in ("sd", "sdo"):
        run_t = p["tau"]
    return obj.open_loop(run_t=run_t, **kw)


def rollout(obj, p, n, coupling_term=None, variant=None, y=None, yd=None):
    """n steps, each result is fed into the next step. (n+1 states)"""
    y = np.copy(p["start_y"]) if y is None else y
    yd = np.copy(p["start_yd"]) if yd is None else yd
    Y, Yd = [np.copy(y)], [np.copy(yd)]
    for _ in range(n):
        y, yd = step(obj, p, y, yd, coupling_term, variant)
        Y.append(np.copy(y))
        Yd.append(np.copy(yd))
    return np.array(Y), np.array(Yd)


def demonstration(rng, p, n=None, tau=None, t0=0.0, start=None, goal=None,
                  final_velocity=False):
    """Smooth demonstration that starts (and ends) at rest: (T, Y)."""
    if n is None:  # well-conditioned regression
        n = max(int(rng.integers(30, 150)), 4 * p["n_weights"])
    tau = p["tau"] if tau is None else tau
    start = p["start_y"] if start is None else start
    goal = p["goal_y"] if goal is None else goal
    s = np.linspace(0.0, 1.0, n)[:, np.newaxis]
    m = 10 * s ** 3 - 15 * s ** 4 + 6 * s ** 5
    bump = (s * (1.0 - s)) ** 3 * 64.0
    amp = rng.normal(size=p["n_vel"]) * 0.4
    freq = rng.integers(0, 3, size=p["n_vel"])
    amp = amp * (np.cos(freq * np.pi * s))
    pd, pv = pos_dims(p)
    Y = np.empty((n, p["n_pos"]))
    if len(pd):
        Y[:, pd] = start[pd] + m * (goal - start)[pd] \
            + bump * amp[:, pv] * p["scale"]
        if final_velocity:
            v = rng.normal(size=len(pd)) * p["scale"]
            Y[:, pd] += v * s ** 3 * (s - 1.0)
    for q, v in ori_dims(p):
        d = ref.qlog(ref.qmul(goal[q], ref.qconj(start[q])))
        Q = ref.qmul(ref.qexp(m * d), start[q])
        Y[:, q] = ref.qmul(ref.qexp(bump * amp[:, v]), Q)
    T = t0 + tau * s[:, 0]
    return T, Y


def clone(p, **kw):
    q = copy.deepcopy(p)
    q.update(kw)
    return q


def same_orientation(p, Y):
    """Canonical sign for all quaternions so that states can be compared."""
    Y = np.array(Y, dtype=float)
    for s, _ in ori_dims(p):
        Q = Y[..., s]
        i = np.argmax(np.abs(Q), axis=-1)
        sign = np.sign(np.take_along_axis(Q, i[..., np.newaxis], axis=-1))
        Y[..., s] = Q * sign
    return Y


def state_scale(p):
    """Magnitude of states, per dimension, for relative tolerances."""
    s = np.ones(p["n_pos"])
    pd = pos_dims(p)[0]
    pv = pos_dims(p)[1]
    if len(pd):
        m = max(np.max(np.abs(p["start_y"][pd])),
                np.max(np.abs(p["goal_y"][pd])),
                p["tau"] * np.max(np.abs(p["start_yd"][pv])),
                p["tau"] * np.max(np.abs(p["goal_yd"][pv])))
        if p["kind"] in DMP_KINDS:
            a, b = full_gains(p)
            m += np.max(np.abs(p["weights"][pv])) / np.min((a * b)[pv])
        if p["kind"] == "sf":
            m = max(m, np.max(np.abs(p["viapoints"])))
        s[pd] = max(m, 1e-12)
    return s


def velocity_scale(p):
    s = np.ones(p["n_vel"])
    s[:] = 10.0 / p["tau"]
    pd, pv = pos_dims(p)
    if len(pd):
        s[pv] *= state_scale(p)[pd][0]
    return s
