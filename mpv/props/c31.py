"""State-following DMPs."""
import numpy as np

from movement_primitives.dmp import StateFollowingDMP

from .. import kinds, ref
from ..core import Group

PROPERTY = "C31"
TECHNIQUE = ("runtime reference, invariant and metamorphic monitors on "
             "traces of state-following DMPs")
RULE = ("Random dimensions, via points, durations, gains and step sizes; "
        "traces are compared with an ODE solver, with superpositions, with "
        "single dimensions and with the range of start and via points.")
ASSUMPTIONS = [
    "at least two via points",
    "overshooting: critically damped gains, start at rest",
    "the primitive is experimental: learning is not offered"]


def weights(t, tau, n):
    """Weights of the via points at a time."""
    z = np.exp(-ref.ALPHA_Z * np.atleast_1d(t) / tau)
    c = np.exp(-ref.ALPHA_Z * np.arange(n) / n)
    d = np.diff(c)
    w = -np.log(0.1) / np.append(d, d[-1]) ** 2
    e = -w[:, np.newaxis] * (z - c[:, np.newaxis]) ** 2
    a = np.exp(e - np.max(e, axis=0))
    return (a / a.sum(axis=0)).T


def params(rng, critical=False):
    p = kinds.random_params(rng, "sf", critical=critical,
                            n_dims=int(rng.choice([1, 2, 3, 4, 7, 12])))
    n = int(rng.integers(2, 21))
    p["n_weights"] = n
    p["viapoints"] = rng.normal(size=(n, p["n_dims"])) * p["scale"]
    return p


def size(p):
    return max(np.max(np.abs(p["viapoints"])), np.max(np.abs(p["start_y"])),
               p["tau"] * np.max(np.abs(p["start_yd"])))


def weighting(case):
    rng = case.rng
    p = params(rng)
    if rng.random() < 0.1:  # many via points
        n = int(rng.integers(60, 200))
        p["n_weights"] = n
        p["viapoints"] = rng.normal(size=(n, p["n_dims"])) * p["scale"]
    n, tau = p["n_weights"], p["tau"]
    case.note(n=n, tau=tau)
    f = kinds.make(p).forcing_term
    T = tau * np.sort(rng.uniform(0.0, rng.choice([1.5, 5.0]), size=40))
    H = np.asarray(f(T))
    case.check(H.shape == (len(T), n), "one weight per via point",
               shape=H.shape)
    case.check(np.all(H >= 0.0), "weights are not negative")
    case.close(H.sum(axis=1), np.ones(len(T)), 1e-9, "weights sum to one",
               scale=1.0)
    case.close(H, weights(T, tau, n), 1e-7, "weights", scale=1.0)
    first = np.argmax(H, axis=1)
    case.check(np.all(np.diff(first) >= 0), "via points in order",
               strongest=first)
    D = np.argmax(np.asarray(f(tau * np.linspace(0.0, 1.0, 50 * n))), axis=1)
    case.check(D[0] == 0 and D[-1] == n - 1 and len(np.unique(D)) == n,
               "each via point has its time")
    h = np.asarray(f(float(T[3])))
    case.close(h.ravel(), H[3], 1e-12, "single time", scale=1.0)


def trajectory(case):
    """Steps and open loop follow the equations."""
    rng = case.rng
    p = params(rng)
    n, tau = p["n_weights"], p["tau"]
    run_t = tau * float(rng.choice([0.4, 1.0, 1.6]))
    case.note(run_t=run_t, **kinds.describe(p))
    s = size(p)
    err = []
    # error of explicit Euler vanishes linearly with the step
    for k in (1, 2):
        q = kinds.clone(p, int_dt=min(p["int_dt"], p["dt"]) / (8 * k))
        T, Y = kinds.open_loop(kinds.make(q), q, run_t)
        err.append(Y)
    case.check(np.array_equal(Y[0], p["start_y"]), "starts at the start")
    E, _ = ref.state_following_ode(
        T, tau, *kinds.full_gains(p), p["start_y"], p["start_yd"],
        p["viapoints"], lambda t: weights(t, tau, n)[0], scale=s)
    case.event("states", 2 * len(T))
    better = 2.0 * err[1] - err[0]
    d = np.max(np.abs(err[1] - err[0]))
    case.check(np.max(np.abs(better - E)) < 0.5 * d + 2e-3 * s,
               "solution of the differential equation",
               got=np.max(np.abs(better - E)) / s, step=d / s)
    case.check(np.max(np.abs(err[1] - E)) < 4 * d + 2e-3 * s,
               "distance to solution", got=np.max(np.abs(err[1] - E)) / s)
    case.seen(Y)
    # stepping: the same states, and results belong to the caller
    q = kinds.clone(p, variant=kinds.DEFAULT)
    obj = kinds.make(q)
    T, Y = kinds.open_loop(kinds.make(q), q, run_t)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    kept = []
    for i in range(len(T) - 1):
        y, yd = obj.step(y, yd)
        kept.append((y, yd, np.copy(y), np.copy(yd)))
        if i > 60:
            break
    m = len(kept)
    case.close(np.array([k[2] for k in kept]), Y[1:m + 1], 1e-9,
               "steps and open loop", scale=s)
    for a, b, c, d in kept:
        case.check(np.array_equal(a, c) and np.array_equal(b, d),
                   "returned states are changed later")


def given(case):
    """Continues from the state and velocity it is given."""
    rng = case.rng
    p = params(rng)
    s = size(p)
    case.note(**kinds.describe(p))
    a = kinds.make(p)
    for _ in range(int(rng.integers(1, 6))):
        y = rng.normal(size=p["n_dims"]) * s
        yd = rng.normal(size=p["n_vel"]) * s / p["tau"]
        # a twin that is at the same time, but was somewhere else before
        t = a.t
        b = kinds.make(kinds.clone(p, start_y=y, start_yd=yd))
        b.configure(t=t)
        ya, da = kinds.step(a, p, y, yd)
        yb, db = kinds.step(b, p, y, yd)
        case.close(ya, yb, 1e-9, "continues from the given state", scale=s)
        case.close(da, db, 1e-9, "continues with the given velocity",
                   scale=s / p["dt"])
        case.event("states", 2)


def linear(case):
    rng = case.rng
    p = params(rng)
    run_t = p["tau"] * float(rng.choice([0.5, 1.0, 1.3]))
    a, b = rng.normal(size=2)
    q = kinds.clone(
        p, start_y=rng.normal(size=p["n_dims"]) * p["scale"],
        start_yd=rng.normal(size=p["n_dims"]) * p["scale"] / p["tau"],
        viapoints=rng.normal(size=p["viapoints"].shape) * p["scale"])
    r = kinds.clone(p, **{k: a * p[k] + b * q[k] for k in (
        "start_y", "start_yd", "viapoints")})
    case.note(run_t=run_t, a=a, b=b, **kinds.describe(p))
    T, P = kinds.open_loop(kinds.make(p), p, run_t)
    Q = kinds.open_loop(kinds.make(q), q, run_t)[1]
    R = kinds.open_loop(kinds.make(r), r, run_t)[1]
    s = (size(p) + size(q)) * (1 + abs(a) + abs(b))
    case.close(R, a * P + b * Q, 1e-8, "superposition", scale=s)
    # each dimension alone
    j = int(rng.integers(p["n_dims"]))
    al, be = kinds.full_gains(p)
    one = kinds.clone(
        p, n_dims=1, n_pos=1, n_vel=1, alpha=al[j], beta=be[j],
        **{k: p[k][j:j + 1] for k in ("start_y", "start_yd", "goal_y",
                                      "goal_yd")},
        viapoints=p["viapoints"][:, j:j + 1])
    case.close(kinds.open_loop(kinds.make(one), one, run_t)[1], P[:, j:j + 1],
               1e-9, "dimension on its own", scale=s)
    # constant shift of everything
    c = rng.normal(size=p["n_dims"]) * p["scale"]
    m = kinds.clone(p, start_y=p["start_y"] + c, viapoints=p["viapoints"] + c)
    case.close(kinds.open_loop(kinds.make(m), m, run_t)[1], P + c, 1e-8,
               "shifted movement", scale=s + np.max(np.abs(c)))


def attraction(case):
    rng = case.rng
    p = params(rng, critical=True)
    p["start_yd"] = np.zeros(p["n_dims"])
    p["int_dt"] = min(p["int_dt"], kinds.largest_step(p) / 4)
    common = rng.random() < 0.5
    if common:
        p["viapoints"][:] = p["viapoints"][0]
    case.note(common=common, **kinds.describe(p))
    obj = kinds.make(p)
    T, Y = kinds.open_loop(obj, p, 1.5 * p["tau"])
    lo = np.minimum(p["start_y"], np.min(p["viapoints"], axis=0))
    hi = np.maximum(p["start_y"], np.max(p["viapoints"], axis=0))
    s = size(p)
    case.seen(Y)
    case.check(np.all(Y >= lo - 1e-6 * s) and np.all(Y <= hi + 1e-6 * s),
               "stays within start and via points",
               over=np.max(Y - hi), under=np.max(lo - Y))
    last = p["viapoints"][-1]
    if common:
        D = np.abs(Y - last)
        case.check(np.all(np.diff(D, axis=0) <= 1e-9 * s),
                   "monotonous approach")
        case.check(np.all(D[-1] < 0.2 * D[0] + 1e-9), "approaches via point")
    T, Y = kinds.open_loop(obj, p, 6.0 * p["tau"])
    # other via points keep a little influence
    rest = weights(6.0 * p["tau"], p["tau"], p["n_weights"])[0]
    case.close(Y[-1], rest @ p["viapoints"], 0.01,
               "rests at the last via points", scale=s)


def defaults(case):
    """Without settings: dt 0.01 and ten via points at zero."""
    rng = case.rng
    n = int(rng.integers(1, 4))
    tau = float(rng.uniform(0.5, 3.0))
    case.note(n=n, tau=tau)
    dmp = StateFollowingDMP(n, tau)
    case.check(np.shape(dmp.forcing_term.viapoints) == (10, n),
               "default via points")
    start = rng.normal(size=n)
    dmp.configure(start_y=start)
    T, Y = dmp.open_loop()
    case.close(np.diff(T), np.full(len(T) - 1, 0.01), 1e-9, "default step",
               scale=0.01)
    case.check(np.all(np.diff(np.abs(Y), axis=0) <= 1e-12),
               "moves to zero")
    case.seen(Y)
    case.raises(NotImplementedError, lambda: dmp.imitate(
        np.linspace(0, 1, 10), np.zeros((10, n))), "learning")
    for k in (0, -3):
        case.raises(ValueError, lambda: StateFollowingDMP(
            n, tau, n_viapoints=k), "number of via points")


GROUPS = [
    Group("given", given, 120, 2000),
    Group("weighting", weighting, 300, 4000),
    Group("trajectory", trajectory, 80, 800),
    Group("linear", linear, 120, 1500),
    Group("attraction", attraction, 120, 1500),
    Group("defaults", defaults, 40, 200),
]
