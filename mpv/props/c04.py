"""Stepping and open-loop execution give the same trajectory."""
import numpy as np

from .. import kinds
from ..core import Group

PROPERTY = "C04"
TECHNIQUE = "runtime monitor comparing step traces with open-loop traces"
RULE = ("Random primitives of all kinds and integrators (gains, weights, "
        "start velocities, step and integration steps that do and do not "
        "divide the run time) are run open loop and step by step.")
ASSUMPTIONS = ["step feedback is the state returned by the previous step",
               "no coupling with memory"]
TOL = 1e-8


class LinearCoupling:
    """Acceleration only, memoryless, same size for positions and rotations."""

    def __init__(self, p, rng):
        w = p["k"] if p["kind"] in ("sd", "sdo") \
            else np.min(np.prod(kinds.full_gains(p), axis=0))
        self.k = rng.uniform(0.0, 0.1) * w
        self.c = rng.uniform(0.0, 1.0) * (
            p["tau"] if p["alpha"] is not None else 1.0 / p["tau"])

    def coupling(self, y, yd):
        return np.zeros_like(yd), -self.c * yd - self.k * np.sin(y[-1])


def grid(case, T, dt, run_t):
    case.check(T[0] == 0.0, "first time is not zero", t0=T[0])
    case.close(T, dt * np.arange(len(T)), 1e-9, "equidistant times",
               scale=max(run_t, dt))
    last = T[-1]
    case.check(last >= run_t - 1e-6 * dt, "ends before the requested time",
               last=last, run_t=run_t)
    case.check(last <= run_t + dt * (1 + 1e-6), "more than one extra sample",
               last=last, run_t=run_t, dt=dt)


def step_vs_open_loop(case):
    rng = case.rng
    kind = kinds.ALL_KINDS[case.index % len(kinds.ALL_KINDS)]
    p = kinds.random_params(rng, kind)
    factor = float(rng.choice([0.0, 0.31, 0.5, 1.0, 1.0, 1.3, 2.0,
                               3.7, 6.0]))
    run_t = None if factor == 1.0 and rng.random() < 0.5 \
        else factor * p["tau"]
    coupling = None
    if rng.random() < 0.3 and kind not in ("sf",):
        coupling = LinearCoupling(p, rng)
    case.note(run_t=run_t, coupling=coupling is not None, **kinds.describe(p))
    obj = kinds.make(p)
    T, Y = kinds.open_loop(obj, p, run_t, coupling)
    case.event("open_loop_samples", len(T))
    expected = p["tau"] if run_t is None else run_t
    case.check(len(T) == len(Y), "as many states as times")
    grid(case, T, p["dt"], expected)
    case.equal(Y[0], p["start_y"], "starts at the configured start")
    obj = kinds.make(p)
    Z, _ = kinds.rollout(obj, p, len(T) - 1, coupling)
    case.event("steps", len(T) - 1)
    case.close(kinds.same_orientation(p, Y), kinds.same_orientation(p, Z),
               TOL, "open loop equals stepping", scale=kinds.state_scale(p))
    # afterwards on the same object, and with time steps changed at run time
    if rng.random() < 0.3 and kind != "sf":
        q = kinds.clone(p, dt=p["dt"] * float(rng.choice([0.5, 2.0])))
        obj = kinds.make(p)
        obj.dt_ = q["dt"] if hasattr(obj, "dt_") else None
        if kind in ("sd", "sdo"):
            obj = kinds.make(q)
        T, Y = kinds.open_loop(obj, q, run_t, coupling)
        grid(case, T, q["dt"], expected)
        Z, _ = kinds.rollout(obj, q, len(T) - 1, coupling)
        case.close(kinds.same_orientation(p, Y), kinds.same_orientation(p, Z),
                   TOL, "open loop equals stepping after change of step",
                   scale=kinds.state_scale(p))


def exact_grid(case):
    """Durations and steps as users write them (0.1, 0.01, 1/3 ...)."""
    rng = case.rng
    kind = kinds.ALL_KINDS[case.index % len(kinds.ALL_KINDS)]
    p = kinds.random_params(rng, kind)
    p["tau"] = float(rng.choice([0.1, 0.3, 0.7, 0.9, 1.0, 1.1, 1.7, 2.3]))
    if kind in ("sd", "sdo"):
        p["k"] = 5.0
        p["c"] = None
    steps = [h for h in (0.1, 0.05, 0.03, 0.07, 1.0 / 30.0, 0.02, 0.01, 0.007,
                         0.005, 0.002, 0.001) if h <= kinds.largest_step(p)]
    p["dt"] = float(rng.choice(steps[:4]))
    p["int_dt"] = float(rng.choice([0.01, 0.001, 0.003, 0.1]))
    case.note(**kinds.describe(p))
    obj = kinds.make(p)
    T, Y = kinds.open_loop(obj, p)
    grid(case, T, p["dt"], p["tau"])
    obj = kinds.make(p)
    Z, Zd = kinds.rollout(obj, p, len(T) - 1)
    if np.all(np.abs(Z) < 1e6) and np.all(np.isfinite(Y)):
        case.close(kinds.same_orientation(p, Y),
                   kinds.same_orientation(p, Z), 1e-6,
                   "open loop equals stepping",
                   scale=max(1.0, np.max(np.abs(Z))))


GROUPS = [
    Group("step_vs_open_loop", step_vs_open_loop, 700, 7000),
    Group("exact_grid", exact_grid, 280, 2800),
]
