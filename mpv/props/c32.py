"""One-arm and two-arm primitives agree with their parts."""
import numpy as np

from .. import kinds
from ..core import Group

PROPERTY = "C32"
TECHNIQUE = ("runtime differential monitor: traces of a primitive and of its "
             "parts, with independent objects, in lockstep")
RULE = ("Random gains per dimension, weights, starts, goals, orientations, "
        "scaling and integrators. Traces of Cartesian DMPs are compared with "
        "those of three-dimensional DMPs, traces of two-arm DMPs with those "
        "of Cartesian DMPs, with swapped arms and with another second arm.")
ASSUMPTIONS = ["two-arm DMPs use explicit Euler integration, so the "
               "corresponding one-arm DMPs do as well",
               "rounding of times may add one step at the end"]

PARTS = ((slice(0, 7), slice(0, 6)), (slice(7, 14), slice(6, 12)))


def part(p, kind, y, yd, **kw):
    """Settings of a part of a primitive."""
    a, b = kinds.full_gains(p)
    n, m = kinds.N_POS.get(kind, 3), kinds.N_VEL.get(kind, 3)
    return kinds.clone(
        p, kind=kind, n_dims=n, n_pos=n, n_vel=m, alpha=a[yd], beta=b[yd],
        start_y=p["start_y"][y], goal_y=p["goal_y"][y],
        start_yd=p["start_yd"][yd], goal_yd=p["goal_yd"][yd],
        weights=p["weights"][yd], **kw)


def duration(rng, p):
    return p["tau"] * float(rng.choice([0.3, 1.0, 1.0, 1.4]))


def position(case):
    rng = case.rng
    p = kinds.random_params(rng, "cart")
    if p["variant"] == kinds.DEFAULT:
        q = part(p, "dmp", slice(0, 3), slice(0, 3))
    else:
        q = part(p, "dmp", slice(0, 3), slice(0, 3), variant=p["variant"][0])
    run_t = duration(rng, p)
    case.note(run_t=run_t, **kinds.describe(p))
    s = kinds.state_scale(p)[0]
    T, Y = kinds.open_loop(kinds.make(p), p, run_t)
    T2, Y2 = kinds.open_loop(kinds.make(q), q, run_t)
    case.close(T, T2, 1e-12, "times", scale=p["tau"])
    case.close(Y[:, :3], Y2, 1e-9, "open loop", scale=s)
    n = min(len(T) - 1, 40)
    A, Ad = kinds.rollout(kinds.make(p), p, n)
    B, Bd = kinds.rollout(kinds.make(q), q, n)
    case.close(A[:, :3], B, 1e-9, "steps", scale=s)
    case.close(Ad[:, :3], Bd, 1e-8, "velocities",
               scale=kinds.velocity_scale(p)[0])
    # orientation does not matter for the position and vice versa
    o = kinds.clone(p)
    o["start_y"][3:], o["goal_y"][3:] = kinds.quat_pair(rng, 2.0)
    o["start_yd"][3:] = rng.normal(size=3) / p["tau"]
    o["weights"][3:] = -o["weights"][3:]
    case.close(kinds.open_loop(kinds.make(o), o, run_t)[1][:, :3], Y[:, :3],
               1e-12, "position with another orientation", scale=s)
    o = kinds.clone(p)
    o["start_y"][:3], o["goal_y"][:3] = rng.normal(size=(2, 3)) * p["scale"]
    o["weights"][:3] = -o["weights"][:3]
    case.close(kinds.open_loop(kinds.make(o), o, run_t)[1][:, 3:], Y[:, 3:],
               1e-12, "orientation with another position", scale=1.0)


def position_learning(case):
    rng = case.rng
    p = kinds.random_params(rng, "cart", weights=False, start_velocity=False)
    q = part(p, "dmp", slice(0, 3), slice(0, 3), variant=kinds.DEFAULT)
    T, Y = kinds.demonstration(rng, p)
    reg = float(rng.choice([0.0, 1e-8, 1e-3, 1.0]))
    final = bool(rng.random() < 0.3)
    case.note(n=len(T), regularization=reg, final=final, **kinds.describe(p))
    a, b = kinds.construct(p), kinds.construct(q)
    a.imitate(T, Y, reg, final)
    b.imitate(T, Y[:, :3], reg, final)
    n = p["n_weights"]
    W = np.reshape(b.get_weights(), (3, n))
    case.close(np.reshape(a.get_weights(), (6, n))[:3], W, 1e-4,
               "learned weights", scale=np.max(np.abs(W)) + 1e-9)
    s = max(p["scale"], np.max(np.abs(Y[:, :3])))
    variant = p["variant"] if p["variant"] == kinds.DEFAULT \
        else p["variant"][0]
    case.close(kinds.open_loop(a, p)[1][:, :3],
               kinds.open_loop(b, q, variant=variant)[1], 1e-7,
               "reproduction", scale=s)
    # positions learned with another orientation
    Z = np.copy(Y)
    Z[:, 3:] = kinds.demonstration(rng, p, n=len(T))[1][:, 3:]
    c = kinds.construct(p)
    c.imitate(T, Z, reg, final)
    case.close(np.reshape(c.get_weights(), (6, n))[:3], W, 1e-4,
               "learned with another orientation",
               scale=np.max(np.abs(W)) + 1e-9)


def arm_variant(p):
    """Corresponding integrator of one arm."""
    name = p["variant"]
    if name == kinds.DEFAULT:
        return ("euler", "cython")
    return ("euler-cython" if name == "cython" else "euler", name)


def common(case, Y, Y2):
    """Rounded times may lead to one more step."""
    case.check(abs(len(Y) - len(Y2)) <= 1, "number of steps", a=len(Y),
               b=len(Y2))
    n = min(len(Y), len(Y2))
    return Y[:n], Y2[:n]


def arms(case):
    rng = case.rng
    p = kinds.random_params(rng, "dual")
    run_t = duration(rng, p)
    case.note(run_t=run_t, **kinds.describe(p))
    s = kinds.state_scale(p)
    T, Y = kinds.open_loop(kinds.make(p), p, run_t)
    n = min(len(T) - 1, 40)
    A, Ad = kinds.rollout(kinds.make(p), p, n)
    for i, (y, yd) in enumerate(PARTS):
        q = part(p, "cart", y, yd, variant=arm_variant(p))
        T2, Y2 = kinds.open_loop(kinds.make(q), q, run_t)
        case.event("arms")
        case.close(*common(case, T, T2), 1e-9, "times", scale=p["tau"])
        case.close(*common(case, kinds.same_orientation(q, Y[:, y]),
                           kinds.same_orientation(q, Y2)), 1e-8,
                   "arm %d: open loop" % i, scale=s[y])
        B, Bd = kinds.rollout(kinds.make(q), q, n)
        case.close(kinds.same_orientation(q, A[:, y]),
                   kinds.same_orientation(q, B), 1e-8, "arm %d: steps" % i,
                   scale=s[y])
        case.close(Ad[:, yd], Bd, 1e-7, "arm %d: velocities" % i,
                   scale=kinds.velocity_scale(p)[yd])


def swapped(p):
    a, b = kinds.full_gains(p)
    i, j = np.roll(np.arange(14), 7), np.roll(np.arange(12), 6)
    return kinds.clone(
        p, alpha=a[j], beta=b[j], start_y=p["start_y"][i],
        goal_y=p["goal_y"][i], start_yd=p["start_yd"][j],
        goal_yd=p["goal_yd"][j], weights=p["weights"][j])


def disturbed(p, noise, seed_y):
    """Steps with errors of the tracked state."""
    obj = kinds.make(p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    Y, Yd = [], []
    for e in noise:
        y, yd = kinds.step(obj, p, y, yd)
        Y.append(np.copy(y))
        Yd.append(np.copy(yd))
        y = y + e * seed_y
        for s in (slice(3, 7), slice(10, 14)):
            y[s] /= np.linalg.norm(y[s])
    return np.array(Y), np.array(Yd)


def independent(case):
    """Exchanged arms; a different second arm."""
    rng = case.rng
    p = kinds.random_params(rng, "dual", p_gain=True)
    run_t = duration(rng, p)
    case.note(run_t=run_t, **kinds.describe(p))
    s = kinds.state_scale(p)
    i, j = np.roll(np.arange(14), 7), np.roll(np.arange(12), 6)
    Y = kinds.open_loop(kinds.make(p), p, run_t)[1]
    q = swapped(p)
    Z = kinds.open_loop(kinds.make(q), q, run_t)[1]
    case.close(Z[:, i], Y, 1e-10, "exchanged arms", scale=s)
    noise = rng.normal(size=(20, 14)) * 0.01
    A, Ad = disturbed(p, noise, s)
    B, Bd = disturbed(q, noise[:, i], s[i])
    case.close(B[:, i], A, 1e-9, "exchanged arms, disturbed", scale=s)
    case.close(Bd[:, j], Ad, 1e-8, "exchanged arms, disturbed velocities",
               scale=kinds.velocity_scale(p))
    arm = int(rng.integers(2))
    (y, yd), (y2, yd2) = PARTS[arm], PARTS[1 - arm]
    other = kinds.random_params(rng, "dual")
    o = kinds.clone(p)
    for k in ("start_y", "goal_y"):
        o[k][y2] = other[k][y2]
    o["start_yd"][yd2] = rng.normal(size=6) / p["tau"]
    o["weights"][yd2] = rng.permuted(p["weights"][yd2], axis=1)
    o["alpha"], o["beta"] = kinds.full_gains(p)
    o["alpha"][yd2] *= 0.8
    o["beta"][yd2] *= 1.1
    Z = kinds.open_loop(kinds.make(o), o, run_t)[1]
    case.close(Z[:, y], Y[:, y], 1e-12, "other arm", scale=s[y])
    more = np.copy(noise)
    more[:, y2] = rng.normal(size=(20, 7)) * 0.03
    B, Bd = disturbed(o, more, s)
    case.close(B[:, y], A[:, y], 1e-12, "other arm disturbed", scale=s[y])
    case.close(Bd[:, yd], Ad[:, yd], 1e-12, "other arm disturbed, velocity",
               scale=kinds.velocity_scale(p)[yd])


def arm_learning(case):
    rng = case.rng
    p = kinds.random_params(rng, "dual", weights=False, start_velocity=False)
    T, Y = kinds.demonstration(rng, p)
    reg = float(rng.choice([0.0, 1e-8, 1e-3, 1.0]))
    final = bool(rng.random() < 0.3)
    case.note(n=len(T), regularization=reg, final=final, **kinds.describe(p))
    n = p["n_weights"]
    dual = kinds.construct(p)
    dual.imitate(T, Y, reg, final)
    W = np.reshape(dual.get_weights(), (12, n))
    for i, (y, yd) in enumerate(PARTS):
        q = part(p, "cart", y, yd, variant=arm_variant(p))
        arm = kinds.construct(q)
        arm.imitate(T, Y[:, y], reg, final)
        V = np.reshape(arm.get_weights(), (6, n))
        case.event("arms")
        for k in (slice(0, 3), slice(3, 6)):
            case.close(W[yd][k], V[k], 1e-4, "arm %d: learned weights" % i,
                       scale=np.max(np.abs(V[k])) + 1e-9)
        same = kinds.same_orientation
        case.close(*common(case, same(q, kinds.open_loop(dual, p)[1][:, y]),
                           same(q, kinds.open_loop(arm, q)[1])), 1e-6,
                   "arm %d: reproduction" % i,
                   scale=np.repeat([max(p["scale"], np.max(np.abs(Y))), 1.0],
                                   [3, 4]))
    i, j = np.roll(np.arange(14), 7), np.roll(np.arange(12), 6)
    other = kinds.construct(swapped(p))
    other.imitate(T, Y[:, i], reg, final)
    for k in (slice(0, 3), slice(3, 6), slice(6, 9), slice(9, 12)):
        case.close(np.reshape(other.get_weights(), (12, n))[j][k], W[k], 1e-4,
                   "exchanged arms: learned weights",
                   scale=np.max(np.abs(W[k])) + 1e-9)


GROUPS = [
    Group("position", position, 80, 1000),
    Group("position_learning", position_learning, 80, 1000),
    Group("arms", arms, 100, 1200),
    Group("independent", independent, 80, 1000),
    Group("arm_learning", arm_learning, 80, 1000),
]
