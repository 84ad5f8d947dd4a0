"""Rollouts solve the documented equation of motion."""
import numpy as np

from .. import kinds, ref
from ..core import Group

PROPERTY = "C02"
TECHNIQUE = ("runtime monitor comparing traces with the solution of the "
             "documented differential equation (high-order ODE solver), "
             "convergence monitored over three step sizes")
RULE = ("Random primitives are run with three step sizes h, h/2, h/4; "
        "the error to the ODE solution has to shrink and the extrapolated "
        "trajectory has to match.")
ASSUMPTIONS = ["coupling without velocity part", "gains, step sizes within "
               "the stability region of the integrators"]


class Acc:
    """Smooth coupling acceleration, the same law for pos. and rotation."""

    def __init__(self, rng, p):
        a, b = kinds.full_gains(p)
        self.k = rng.uniform(0.0, 0.15) * np.min(a * b)
        self.c = rng.uniform(0.0, 2.0) * p["tau"]
        self.s = p["scale"]

    def acc(self, y, yd):
        return -self.c * yd - self.k * np.sin(y[-1]) * np.ones(len(yd))

    def coupling(self, y, yd):
        return np.zeros(len(yd)), self.acc(y, yd)


def reference(p, T, coupling):
    a, b = kinds.full_gains(p)
    acc = None if coupling is None else coupling.acc
    pd, pv = kinds.pos_dims(p)
    s = max(p["scale"], 1e-3)
    if p["kind"] == "fv":
        z = np.zeros(p["n_vel"])
        return ref.final_velocity_ode(
            T, p["tau"], a, b, (p["start_y"], p["start_yd"], z),
            (p["goal_y"], p["goal_yd"], z), p["weights"], acc, scale=s)
    Y = np.empty((len(T), p["n_pos"]))
    Yd = np.empty((len(T), p["n_vel"]))
    blocks = [pd[:3], pd[3:]] if p["kind"] == "dual" else [pd]
    vblocks = [pv[:3], pv[3:]] if p["kind"] == "dual" else [pv]
    for d, v in zip(blocks, vblocks):
        Y[:, d], Yd[:, v] = ref.dmp_ode(
            T, p["tau"], a[v], b[v], p["start_y"][d], p["start_yd"][v],
            p["goal_y"][d], p["weights"][v], p["smooth"], acc, scale=s)
    for q, v in kinds.ori_dims(p):
        Y[:, q], Yd[:, v] = ref.quaternion_dmp_ode(
            T, p["tau"], a[v], b[v], p["start_y"][q], p["start_yd"][v],
            p["goal_y"][q], p["weights"][v], p["smooth"], acc)
    return Y, Yd


def align(p, Y, R):
    """Choose the sign of quaternions as in the reference."""
    Y = np.copy(Y)
    for q, _ in kinds.ori_dims(p):
        sign = np.sign(np.sum(Y[:, q] * R[:, q], axis=1))
        Y[:, q] *= sign[:, np.newaxis]
    return Y


def simulate(p, n, k, coupling, how):
    """n samples of spacing tau/n, k (sub)steps each."""
    rk4 = p["kind"] in ("dmp", "cart") and (
        p["variant"] == kinds.DEFAULT or "rk4" in str(p["variant"]))
    q = kinds.clone(p)
    h = p["tau"] / n
    stride = 1
    q["dt"], q["int_dt"] = h, h / k
    if rk4:  # one integration step per sample
        q["dt"] = h / k
        q["int_dt"] = h / k
        stride = k
    obj = kinds.make(q)
    if how == "open_loop":
        run_t = q["tau"] * p["run"]
        T, Y = kinds.open_loop(obj, q, run_t, coupling)
        m = int(round(n * p["run"])) * stride + 1
        return Y[:m:stride], None
    m = int(round(n * p["run"])) * stride
    Y, Yd = kinds.rollout(obj, q, m, coupling)
    return Y[::stride], Yd[::stride]


def motion(case):
    rng = case.rng
    kind = ("dmp", "dmp", "cart", "dual", "fv")[case.index % 5]
    p = kinds.random_params(rng, kind, max_angle=2.5)
    # smooth forcing so that the step sizes resolve it
    p["n_weights"] = int(rng.choice([2, 3, 5, 8, 12]))
    a, b = kinds.full_gains(p)
    amp = 0.15 * a * b
    amp[kinds.pos_dims(p)[1]] = (a * b)[kinds.pos_dims(p)[1]] * p["scale"]
    p["weights"] = rng.normal(size=(p["n_vel"], p["n_weights"])) \
        * amp[:, np.newaxis]
    p["run"] = float(rng.choice([1.0, 1.0, 1.5])) if kind != "fv" else 1.0
    coupling = Acc(rng, p) if rng.random() < 0.35 and kind != "dual" \
        else None
    if coupling is not None and kind == "cart":
        p["smooth"] = p["smooth"]
    how = "open_loop" if rng.random() < 0.5 else "step"
    n = 20
    case.note(how=how, coupling=coupling is not None, **kinds.describe(p))
    m = int(round(n * p["run"]))
    T = np.arange(m + 1) * (p["tau"] / n)
    R, Rd = reference(p, T, coupling)
    base = 24 if case.tier == "quick" else 32
    E, A = [], []
    for k in (base, 2 * base, 4 * base):
        Y, Yd = simulate(p, n, k, coupling, how)
        case.check(Y.shape == R.shape, "number of samples", got=Y.shape)
        Y = align(p, Y, R)
        A.append((Y, Yd))
        case.seen(Y)
        scale = kinds.state_scale(p)
        # without this, a large excursion would need its own scale
        scale = np.maximum(scale, np.max(np.abs(R), axis=0))
        E.append(np.max(np.abs(Y - R) / scale))
    case.event("states_compared", 3 * len(T))
    case.note(errors=E)
    X = 2 * A[2][0] - A[1][0]
    case.close(X, R, 2e-4, "extrapolated trajectory solves the ODE",
               scale=scale)
    case.check(E[2] <= 0.03, "error at smallest step size", errors=E)
    case.check(E[2] <= 0.45 * E[0] + 2e-5,
               "error shrinks with the step size", errors=E)
    if A[0][1] is not None:
        vs = np.maximum(kinds.velocity_scale(p), np.max(np.abs(Rd), axis=0))
        Xd = 2 * A[2][1] - A[1][1]
        if kind == "fv":
            Xd, Rd = Xd[:-1], Rd[:-1]
        case.close(Xd, Rd, 2e-4, "extrapolated velocities solve the ODE",
                   scale=vs)


def acceleration(case):
    """Initial acceleration of the positional system."""
    rng = case.rng
    kind = ("dmp", "cart", "dual", "fv")[case.index % 4]
    p = kinds.random_params(rng, kind)
    p["dt"] = p["tau"] * 1e-4
    p["int_dt"] = p["dt"]
    case.note(**kinds.describe(p))
    a, b = kinds.full_gains(p)
    tau = p["tau"]
    obj = kinds.make(p)
    y, yd = kinds.step(obj, p, np.copy(p["start_y"]), np.copy(p["start_yd"]))
    acc = (yd - p["start_yd"]) / p["dt"]
    f = ref.forcing(0.0, tau, p["weights"])
    d = np.empty(p["n_vel"])
    pd, pv = kinds.pos_dims(p)
    d[pv] = p["goal_y"][pd] - p["start_y"][pd]
    for q, v in kinds.ori_dims(p):
        d[v] = ref.qlog(ref.qmul(p["goal_y"][q], ref.qconj(p["start_y"][q])))
    if kind == "fv":
        expected = f / tau ** 2
    else:
        pull = np.zeros_like(d) if p["smooth"] else b * d
        expected = (a * (pull - tau * p["start_yd"]) + f) / tau ** 2
    scale = (np.abs(f) + a * b * np.abs(d) + a * tau * np.abs(p["start_yd"])
             + np.max(np.abs(p["weights"]), axis=1)
             + 30.0 * (np.abs(d) + tau * np.abs(p["start_yd"])
                       + tau * np.abs(p["goal_yd"])) + 1e-9) / tau ** 2
    case.close(acc, expected, 0.02, "initial acceleration", scale=scale)


GROUPS = [
    Group("motion", motion, 260, 2000),
    Group("acceleration", acceleration, 600, 6000),
]
