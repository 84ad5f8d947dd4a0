"""The execution time only rescales time."""
import numpy as np

from .. import kinds
from ..core import Group

PROPERTY = "C06"
TECHNIQUE = ("runtime metamorphic monitor: traces of time-scaled executions "
             "and demonstrations are compared state by state")
RULE = ("Random primitives are executed with two execution times (set at "
        "construction, by the property, or after learning) and learned from "
        "time-shifted and time-scaled demonstrations.")
ASSUMPTIONS = ["coupling accelerations that depend on the position only, "
               "no tracking gain",
               "step sizes scale with the execution time"]
TOL = 1e-7


def scaled(p, f):
    q = kinds.clone(p)
    for k in ("tau", "dt", "int_dt"):
        q[k] = p[k] * f
    for k in ("start_yd", "goal_yd"):
        q[k] = p[k] / f
    if q.get("k") is not None:
        q["k"] = p["k"] / f ** 2
        if p["c"] is not None:
            q["c"] = p["c"] / f
    return q


class Coupling:
    """Acceleration that depends on the position only."""

    def __init__(self, rng, p):
        a, b = kinds.full_gains(p)
        self.amp = 0.05 * a * b
        pd, pv = kinds.pos_dims(p)
        self.size = p["scale"]
        if p["kind"] != "cart":
            self.amp[pv] = rng.normal(size=len(pv)) * 20.0 * p["scale"]

    def coupling(self, y, yd):
        # position and orientation are coupled separately in Cartesian DMPs
        return np.zeros_like(yd), self.amp[:len(yd)] * np.cos(
            y[0] / self.size)


def factor(rng):
    if rng.random() < 0.3:
        return float(rng.choice([0.5, 2.0, 0.25, 4.0, 8.0]))
    return kinds.logu(rng, 0.05, 20.0)


def execution(case):
    rng = case.rng
    kind = ("dmp", "dmp", "fv", "cart", "dual", "sf")[case.index % 6]
    p = kinds.random_params(rng, kind)
    if rng.random() < 0.5:
        p["dt"] = p["tau"] / float(rng.choice([64, 128, 40, 50, 70]))
        p["dt"] = min(p["dt"], kinds.largest_step(p))
        p["int_dt"] = p["dt"] / float(rng.choice([1, 2, 4]))
    f = factor(rng)
    q = scaled(p, f)
    how = ["ctor", "property", "property_twice"][rng.integers(3)]
    if kind == "sf":
        how = "ctor"
    term = Coupling(rng, p) if rng.random() < 0.4 else None
    case.note(factor=f, how=how, coupling=term is not None,
              **kinds.describe(p))
    a = kinds.make(p)
    if how == "ctor":
        b = kinds.make(q)
    else:
        b = kinds.construct(p)
        kinds.set_weights(b, p)
        w = b.get_weights()
        if how == "property_twice":
            b.execution_time_ = p["tau"] * rng.uniform(0.1, 3.0)
            if rng.random() < 0.5:
                b.open_loop()
        b.execution_time_ = q["tau"]
        case.equal(b.get_weights(), w, "execution time keeps the weights")
        case.equal(b.execution_time_, q["tau"], "execution time is kept")
        b.dt_, b.int_dt = q["dt"], q["int_dt"]
        kinds.configure(b, q)
    run = float(rng.choice([1.0, 1.3, 0.6]))
    n = int(run * p["tau"] / p["dt"])
    A, Ad = kinds.rollout(a, p, n, term)
    B, Bd = kinds.rollout(b, q, n, term)
    case.event("steps", 2 * n)
    s = np.maximum(kinds.state_scale(p), np.max(np.abs(A), axis=0))
    v = np.maximum(kinds.velocity_scale(p), np.max(np.abs(Ad), axis=0))
    if kind == "fv":  # behind the end, rounding decides when the goal stops
        keep = np.arange(n + 1) * p["dt"] < p["tau"] * (1 - 1e-6) - p["dt"]
        A, Ad, B, Bd = [x[keep] for x in (A, Ad, B, Bd)]
    case.close(A, B, TOL, "states at equal phase", scale=s)
    case.close(Ad, Bd * f, TOL, "velocities scale inversely", scale=v)
    # open loop, where the number of samples may differ by one
    _, C = kinds.open_loop(a, p, coupling_term=term)
    _, D = kinds.open_loop(b, q, coupling_term=term)
    case.check(abs(len(C) - len(D)) <= 1, "number of samples",
               a=len(C), b=len(D))
    m = min(len(C), len(D)) - (1 if kind == "fv" else 0)
    case.close(C[:m], D[:m], TOL, "open loop at equal phase", scale=s)


def learning(case):
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = kinds.random_params(rng, kind, start_velocity=False)
    T, Y = kinds.demonstration(rng, p, final_velocity=kind == "fv")
    if rng.random() < 0.3:  # uneven sampling
        s = np.linspace(0, 1, len(T))
        T = p["tau"] * (s + 0.1 * s * (1 - s))
    f = factor(rng)
    t0 = float(rng.choice([0.0, 1.0, -2.0, 5.0, 100.0])) * p["tau"]
    T2 = T * f + t0 * f
    kw = {}
    if rng.random() < 0.3:
        kw["regularization_coefficient"] = kinds.logu(rng, 1e-8, 1e-2)
    if rng.random() < 0.3 and kind != "fv":
        kw["allow_final_velocity"] = True
    case.note(factor=f, t0=t0, options=kw, **kinds.describe(p))
    a, b = kinds.construct(p), kinds.construct(p)
    a.imitate(np.copy(T), np.copy(Y), **kw)
    b.imitate(np.copy(T2), np.copy(Y), **kw)
    s = kinds.state_scale(p)
    if kind == "fv":
        # velocities of the demonstration are in its own time
        case.close(b.goal_yd * f, a.goal_yd, 1e-6, "goal velocity",
                   scale=kinds.velocity_scale(p))
        c = kinds.construct(scaled(p, f))
        c.imitate(np.copy(T2), np.copy(Y), **kw)
        A, B = a.open_loop()[1], c.open_loop()[1]
        m = min(len(A), len(B)) - 1
        A, B = A[:m], B[:m]
    else:
        A = kinds.open_loop(a, p)[1]
        B = kinds.open_loop(b, p)[1]
    s = np.maximum(s, np.max(np.abs(A), axis=0))
    case.close(A, B, 1e-5, "learned movement does not depend on the time unit",
               scale=s)


GROUPS = [
    Group("execution", execution, 480, 4800),
    Group("learning", learning, 320, 3200),
]
