"""Final velocities are reached on time."""
import numpy as np

from .. import kinds, ref
from ..core import Group

PROPERTY = "C11"
TECHNIQUE = ("runtime monitor of executed traces against boundary conditions "
             "and the quintic reference")
RULE = ("Random boundary conditions and execution times, zero or learned "
        "weights, stepped and open-loop execution, goals changed after "
        "learning.")
ASSUMPTIONS = ["step sizes are extrapolated to zero to remove the first-order "
               "integration error"]


def params(rng, m):
    p = kinds.random_params(rng, "fv", weights=False)
    a = rng.uniform(15, 35, size=p["n_vel"])
    p["alpha"], p["beta"] = a, a / 4
    if rng.random() < 0.3:
        p["alpha"], p["beta"] = 25.0, 6.25
    p["dt"] = p["tau"] / m
    p["int_dt"] = p["dt"] / float(rng.choice([1, 2]))
    p["goal_yd"] = rng.normal(size=p["n_vel"]) * p["scale"] / p["tau"]
    if rng.random() < 0.2:
        p["goal_yd"][:] = 0.0
    return p


def scales(p):
    s = np.max(np.abs(np.r_[p["start_y"], p["goal_y"],
                            p["tau"] * p["start_yd"],
                            p["tau"] * p["goal_yd"]])) + 1e-9
    return s, s / p["tau"]


def trace(obj, p, n):
    """Steps with the current step size of the object."""
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    Y, Yd = [y], [yd]
    obj.reset()
    for _ in range(n):
        y, yd = obj.step(y, yd)
        Y.append(y)
        Yd.append(yd)
    return np.array(Y), np.array(Yd)


def converged(make, p, m):
    """States at m steps of the execution time, extrapolated."""
    Y, Yd = trace(make(p), p, m)
    q = kinds.clone(p, dt=p["dt"] / 2, int_dt=p["int_dt"] / 2)
    Z, Zd = trace(make(q), q, 2 * m)
    return 2 * Z[::2] - Y, 2 * Zd[::2] - Yd


def boundary(case):
    """Without weights the motion is the quintic."""
    rng = case.rng
    m = int(rng.choice([100, 150, 200]))
    p = params(rng, m)
    ydd0 = rng.normal(size=p["n_vel"]) * p["scale"] / p["tau"] ** 2
    ydd1 = rng.normal(size=p["n_vel"]) * p["scale"] / p["tau"] ** 2
    if rng.random() < 0.5:
        ydd0[:] = 0.0
        ydd1[:] = 0.0
    case.note(ydd0=ydd0, ydd1=ydd1, **kinds.describe(p))

    def make(p):
        obj = kinds.construct(p)
        obj.configure(start_y=p["start_y"], start_yd=p["start_yd"],
                      start_ydd=ydd0, goal_y=p["goal_y"],
                      goal_yd=p["goal_yd"], goal_ydd=ydd1)
        return obj

    s, v = scales(p)
    Y, Yd = converged(make, p, m)
    case.event("states_compared", len(Y))
    case.close(Y[-1], p["goal_y"], 1e-3, "goal position", scale=s)
    case.close(Yd[-1], p["goal_yd"], 8e-3, "goal velocity", scale=v)
    c = ref.quintic(p["tau"], p["start_y"], p["start_yd"], ydd0,
                    p["goal_y"], p["goal_yd"], ydd1)
    Q = np.array([ref.quintic_at(c, i * p["dt"], p["tau"])[0]
                  for i in range(m + 1)])
    case.close(Y, Q, 2e-3, "follows the quintic", scale=s)
    # afterwards the goal does not move any more
    a, b = kinds.full_gains(p)
    k = m // 4
    Z, Zd = converged(make, p, m + k)
    for d in range(p["n_vel"]):
        x, xd = ref.oscillator(
            np.arange(k + 1) * p["dt"], a[d] * b[d] / p["tau"] ** 2,
            a[d] / p["tau"], np.zeros(1), p["goal_yd"][d:d + 1])
        case.close(Z[m:, d], p["goal_y"][d] + x[:, 0], 3e-3,
                   "returns to the goal", scale=s)
        case.close(Zd[m:, d], xd[:, 0], 3e-2,
                   "comes to rest after the execution time", scale=v)
    T, Z = make(p).open_loop()
    case.close(Z[0], p["start_y"], 1e-12, "starts at start", scale=s)
    case.close(Z[m], trace(make(p), p, m)[0][-1], 1e-9,
               "open loop and steps", scale=s)
    T, Z = make(p).open_loop(run_t=3 * p["tau"])
    case.close(Z[-1], p["goal_y"], 1e-3, "holds the goal", scale=s)
    case.close((Z[-1] - Z[-2]) / p["dt"], 0 * Z[-1], 1e-2, "rests at the goal",
               scale=v)


def learned(case):
    rng = case.rng
    m = int(rng.choice([100, 150]))
    p = params(rng, m)
    p["start_yd"][:] = 0.0
    p["n_weights"] = int(rng.choice([20, 30]))
    p["weights"] = np.zeros((p["n_vel"], p["n_weights"]))
    n = int(rng.choice([400, 600]))
    f = kinds.logu(rng, 0.3, 3.0) if rng.random() < 0.3 else 1.0
    t0 = float(rng.choice([0, 0, 2.5, -7])) * p["tau"]
    T, Y = kinds.demonstration(rng, p, n=n, final_velocity=True)
    case.note(n=n, f=f, t0=t0, **kinds.describe(p))
    change = rng.choice(["nothing", "goal", "velocity", "time", "all"])
    case.note(change=change)
    p["goal_y"] = Y[-1]
    p["start_y"] = Y[0]
    p["goal_yd"] = (Y[-1] - Y[-2]) / (T[-1] - T[-2]) / f
    demo_vel = np.copy(p["goal_yd"])
    r = np.max(np.ptp(Y, axis=0))
    if change in ("goal", "all"):
        p["goal_y"] = p["goal_y"] + rng.normal(size=p["n_pos"]) * r
    if change in ("velocity", "all"):
        p["goal_yd"] = rng.normal(size=p["n_vel"]) * r / p["tau"]
    if change in ("time", "all"):
        g = kinds.logu(rng, 0.5, 2.0)
        p["tau"] *= g
        p["dt"] *= g
        p["int_dt"] *= g

    def make(q):
        # learned with the first execution time, then changed
        obj = kinds.construct(q)
        obj.execution_time_ = f * T[-1]
        obj.imitate(t0 + f * T, np.copy(Y))
        if q is p:
            case.close(obj.goal_yd, demo_vel, 1e-6, "learned final velocity",
                       scale=np.max(np.abs(demo_vel)) + 1e-9)
        if change in ("goal", "all"):
            obj.configure(goal_y=q["goal_y"])
        if change in ("velocity", "all") or f != 1.0:
            obj.configure(goal_yd=q["goal_yd"])
        obj.execution_time_ = q["tau"]
        return obj

    s, v = scales(p)
    s, v = s + r, v + r / p["tau"]
    Z, Zd = converged(make, p, m)
    case.event("states_compared", len(Z))
    case.close(Z[-1], p["goal_y"], 0.012, "goal position", scale=s)
    case.close(Zd[-1], p["goal_yd"], 0.06, "goal velocity", scale=v)
    Z = make(p).open_loop(run_t=4 * p["tau"])[1]
    case.close(Z[-1], p["goal_y"], 5e-3, "holds the goal", scale=s)


GROUPS = [
    Group("boundary", boundary, 240, 2400),
    Group("learned", learned, 160, 1600),
]
