"""Motion is linear in space and dimensions do not interact."""
import numpy as np

from .. import kinds
from ..core import Group

PROPERTY = "C07"
TECHNIQUE = ("runtime metamorphic monitor: superposition, shift, scaling and "
             "dimension-wise decomposition of observed traces")
RULE = ("Random primitives are executed with combined, shifted, scaled, "
        "permuted and dimension-wise split parameters.")
ASSUMPTIONS = ["no coupling terms"]
TOL = 1e-8
LINEAR = ("dmp", "fv", "cart", "dual", "sf", "sd")
PARAMS = ("start_y", "goal_y", "start_yd", "goal_yd", "weights", "viapoints")


def another(rng, p):
    """Other start, goal, velocities and weights for the same settings."""
    q = kinds.clone(p)
    pd, pv = kinds.pos_dims(p)
    s = p["scale"]
    for k in ("start_y", "goal_y"):
        q[k][pd] = rng.normal(size=len(pd)) * s
    q["start_yd"][pv] = rng.normal(size=len(pv)) * s / p["tau"]
    if p["kind"] == "fv":
        q["goal_yd"] = rng.normal(size=len(pv)) * s / p["tau"]
    q["weights"][pv] = rng.normal(size=(len(pv), p["n_weights"])) * 60.0 * s
    if "viapoints" in p:
        q["viapoints"] = rng.normal(size=p["viapoints"].shape) * s
    return q


def combine(p, q, a, b):
    r = kinds.clone(p)
    pd, pv = kinds.pos_dims(p)
    for k in PARAMS:
        if k not in p:
            continue
        i = slice(None) if k == "viapoints" else (
            pv if k in ("start_yd", "goal_yd", "weights") else pd)
        r[k][i] = a * p[k][i] + b * q[k][i]
    return r


def run(p, how, n, run_t):
    obj = kinds.make(p)
    if how == "open_loop":
        return kinds.open_loop(obj, p, run_t)[1], None
    return kinds.rollout(obj, p, n)


def superposition(case):
    rng = case.rng
    kind = LINEAR[case.index % len(LINEAR)]
    p = kinds.random_params(rng, kind)
    q = another(rng, p)
    mode = ["combine", "shift", "scale"][rng.integers(3)]
    a, b = rng.uniform(-2, 2, size=2)
    pd, pv = kinds.pos_dims(p)
    if mode == "shift":
        a = b = 1.0
        c = rng.normal(size=len(pd)) * p["scale"]
        for k in ("start_y", "goal_y"):
            q[k][pd] = c
        for k in ("start_yd", "goal_yd", "weights"):
            q[k][pv] = 0.0
        if "viapoints" in q:
            q["viapoints"][:] = c
    elif mode == "scale":
        b = 0.0
        a *= kinds.logu(rng, 1e-3, 1e3)
    r = combine(p, q, a, b)
    how = "step" if rng.random() < 0.5 else "open_loop"
    run_t = p["tau"] * float(rng.choice([0.5, 1.0, 1.5]))
    n = int(run_t / p["dt"])
    case.note(mode=mode, how=how, a=a, b=b, **kinds.describe(p))
    Y, Yd = run(p, how, n, run_t)
    Z, Zd = run(q, how, n, run_t)
    X, Xd = run(r, how, n, run_t)
    case.event("trajectories", 3)
    s = max(np.max(np.abs(a * Y[:, pd])), np.max(np.abs(b * Z[:, pd])))
    case.close(X[:, pd], a * Y[:, pd] + b * Z[:, pd], TOL,
               mode + " of positions", scale=s)
    if Yd is not None:
        s = max(np.max(np.abs(a * Yd[:, pv])), np.max(np.abs(b * Zd[:, pv])),
                s / p["tau"])
        case.close(Xd[:, pv], a * Yd[:, pv] + b * Zd[:, pv], TOL,
                   mode + " of velocities", scale=s)
    for o, _ in kinds.ori_dims(p):
        case.close(X[:, o], Y[:, o], TOL,
                   "orientation does not depend on position", scale=1.0)


def one_dim(p, i):
    q = kinds.clone(p, n_dims=1, n_pos=1, n_vel=1)
    for k in ("start_y", "goal_y", "start_yd", "goal_yd"):
        q[k] = p[k][i:i + 1].copy()
    q["weights"] = p["weights"][i:i + 1].copy()
    if "viapoints" in p:
        q["viapoints"] = p["viapoints"][:, i:i + 1].copy()
    if p["alpha"] is not None:
        a, b = kinds.full_gains(p)
        q["alpha"], q["beta"] = float(a[i]), float(b[i])
    return q


def dimensions(case):
    rng = case.rng
    kind = ("dmp", "fv", "sf", "sd")[case.index % 4]
    n = int(rng.choice([2, 3, 4, 6, 7, 12]))
    p = kinds.random_params(rng, kind, n_dims=n)
    how = "step" if rng.random() < 0.5 else "open_loop"
    run_t = p["tau"] * float(rng.choice([0.5, 1.0, 1.2]))
    k = int(run_t / p["dt"])
    case.note(how=how, **kinds.describe(p))
    Y, Yd = run(p, how, k, run_t)
    s = np.maximum(kinds.state_scale(p), np.max(np.abs(Y)))
    for i in range(n):
        Z, Zd = run(one_dim(p, i), how, k, run_t)
        case.close(Y[:, i], Z[:, 0], TOL, "dimension moves as if it was alone",
                   scale=s[i], dimension=i)
        if Yd is not None:
            case.close(Yd[:, i], Zd[:, 0], TOL,
                       "velocity of dimension as if it was alone",
                       scale=10 * s[i] / p["tau"] + np.max(np.abs(Yd[:, i])),
                       dimension=i)
    # subsets and permutations
    order = rng.permutation(n)[:rng.integers(2, n + 1)]
    q = kinds.clone(p, n_dims=len(order), n_pos=len(order), n_vel=len(order))
    for key in ("start_y", "goal_y", "start_yd", "goal_yd", "weights"):
        q[key] = p[key][order]
    if "viapoints" in p:
        q["viapoints"] = p["viapoints"][:, order]
    if p["alpha"] is not None:
        a, b = kinds.full_gains(p)
        q["alpha"], q["beta"] = a[order], b[order]
    Z, _ = run(q, how, k, run_t)
    case.close(Z, Y[:, order], TOL, "reordered dimensions", scale=s[order])


def learning(case):
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    n = int(rng.choice([2, 3, 5]))
    p = kinds.random_params(rng, kind, n_dims=n, start_velocity=False)
    pd, pv = kinds.pos_dims(p)
    T, Y = kinds.demonstration(rng, p, final_velocity=kind == "fv")
    kw = {}
    if rng.random() < 0.3:
        kw["regularization_coefficient"] = kinds.logu(rng, 1e-6, 1e-1)
    if kind != "fv" and rng.random() < 0.3:
        kw["allow_final_velocity"] = True
    a = rng.choice([-1.0, 1.0]) * kinds.logu(rng, 1e-2, 1e2)
    c = rng.normal(size=len(pd)) * p["scale"]
    if rng.random() < 0.25:  # any unit of length
        a, c = a * kinds.logu(rng, 1e-12, 1e12), 0.0 * c
    Z = np.copy(Y)
    Z[:, pd] = a * Y[:, pd] + c
    case.note(a=a, options=kw, **kinds.describe(p))
    u, v = kinds.construct(p), kinds.construct(p)
    u.imitate(np.copy(T), np.copy(Y), **kw)
    v.imitate(np.copy(T), np.copy(Z), **kw)
    Yu = kinds.open_loop(u, p)[1]
    Yv = kinds.open_loop(v, p)[1]
    s = max(np.max(np.abs(Yu[:, pd])) * abs(a), np.max(np.abs(c)))
    case.close(Yv[:, pd], a * Yu[:, pd] + c, 1e-6,
               "learned from shifted and scaled demonstration", scale=s)
    for o, _ in kinds.ori_dims(p):
        case.close(Yv[:, o], Yu[:, o], 1e-6,
                   "orientation learned independently", scale=1.0)
    if kind in ("dmp", "fv"):
        for i in range(n):
            w = kinds.construct(one_dim(p, i))
            w.imitate(np.copy(T), np.copy(Y[:, i:i + 1]), **kw)
            Yw = kinds.open_loop(w, p)[1]
            case.close(Yw[:, 0], Yu[:, i], 1e-6,
                       "dimension learned as if it was alone",
                       scale=kinds.state_scale(p)[i] + np.max(np.abs(Yu)))


GROUPS = [
    Group("superposition", superposition, 420, 4200),
    Group("dimensions", dimensions, 160, 1600),
    Group("learning", learning, 240, 2400),
]
