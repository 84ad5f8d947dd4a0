"""Weights form a faithful parameter vector."""
import numpy as np

from .. import kinds
from ..core import Group

PROPERTY = "C10"
TECHNIQUE = ("runtime monitor of weight reads and writes with twin executions")
RULE = ("Random weight vectors (any layout, data type, magnitude) are read "
        "from and written to DMPs of all kinds between other operations.")
ASSUMPTIONS = ["weights are written as NumPy arrays"]


def vector(rng, n):
    """Weights in some memory layout."""
    r = rng.integers(6)
    if r == 0:
        return rng.normal(size=n) * kinds.logu(rng, 1e-6, 1e6)
    if r == 1:
        return rng.normal(size=2 * n)[::2]
    if r == 2:
        return rng.normal(size=n)[::-1]
    if r == 3:
        return rng.integers(-1000, 1000, size=n)
    if r == 4:
        w = np.zeros(n)
        w[rng.integers(n)] = rng.normal() * 100
        return w
    w = rng.normal(size=n)
    w.setflags(write=False)
    return w


def length(p):
    return p["n_vel"] * p["n_weights"]


def disturb(rng, obj, p):
    """Operations that must not change weights."""
    r = rng.integers(6)
    if r == 0:
        kinds.rollout(obj, p, int(rng.integers(1, 5)))
    elif r == 1:
        kinds.open_loop(obj, p, p["tau"] * rng.uniform(0.1, 0.5))
    elif r == 2:
        obj.configure(goal_y=p["start_y"])
        kinds.configure(obj, p)
    elif r == 3:
        obj.reset()
    elif r == 4:
        obj.execution_time_ = p["tau"] * rng.uniform(0.5, 2.0)
        if rng.random() < 0.5:
            case_w = obj.get_weights()
            case_w *= -1.0
        obj.execution_time_ = p["tau"]
    else:
        w = obj.get_weights()
        w += 1.0


def vectors(case):
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = kinds.random_params(rng, kind)
    case.note(**kinds.describe(p))
    obj = kinds.construct(p)
    n = length(p)
    w = obj.get_weights()
    case.check(isinstance(w, np.ndarray) and w.shape == (n,),
               "weights are a flat vector of the declared length",
               shape=np.shape(w), n=n)
    case.equal(w, np.zeros(n), "weights of a new primitive are zero")
    if kind != "cart":
        case.check(int(obj.n_weights) == n, "declared number of weights",
                   got=int(obj.n_weights), expected=n)
    for _ in range(5):
        v = vector(rng, n)
        copy = np.array(v, dtype=float)
        before = obj.get_weights()
        snapshot = np.copy(before)
        obj.set_weights(v)
        case.equal(before, snapshot, "earlier snapshot changed by writing")
        case.equal(obj.get_weights(), copy, "read after write")
        case.equal(np.array(v, dtype=float), copy, "written vector changed")
        if v.flags.writeable:
            v[:] = 7
            case.equal(obj.get_weights(), copy,
                       "primitive follows caller's vector")
        a = obj.get_weights()
        a[:] = np.pi
        case.equal(obj.get_weights(), copy, "primitive follows snapshot")
        disturb(rng, obj, p)
        case.event("disturbances")
        case.equal(obj.get_weights(), copy, "weights changed by other use")


def behaviour(case):
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = kinds.random_params(rng, kind)
    case.note(**kinds.describe(p))
    a = kinds.make(p)
    b = kinds.construct(p)
    if rng.random() < 0.5:
        T, Y = kinds.demonstration(rng, p)
        b.imitate(T, Y)
    if rng.random() < 0.3:
        b.execution_time_ = 1.7 * p["tau"]
        b.execution_time_ = p["tau"]
    b.set_weights(a.get_weights())
    kinds.configure(b, p)
    A, B = kinds.open_loop(a, p)[1], kinds.open_loop(b, p)[1]
    case.close(A, B, 1e-12, "equal weights, equal behaviour",
               scale=kinds.state_scale(p))
    n = int(rng.integers(2, 20))
    old = a.get_weights()
    a.set_weights(old * rng.uniform(-1, 1, size=len(old)) + 1.0)
    if rng.random() < 0.5:
        kinds.open_loop(a, p, 0.3 * p["tau"])
    a.set_weights(old)
    case.equal(kinds.open_loop(a, p)[1], A, "old weights restored")
    case.equal(kinds.rollout(a, p, n)[0], kinds.rollout(kinds.make(p), p, n)[0],
               "old weights restored, steps")


def influence(case):
    """Each weight acts on its own dimension, and it does act."""
    rng = case.rng
    kind = kinds.DMP_KINDS[case.index % 4]
    p = kinds.random_params(rng, kind, start_velocity=False)
    case.note(**kinds.describe(p))
    base = kinds.make(p)
    w = base.get_weights()
    i = int(rng.integers(len(w)))
    d, j = divmod(i, p["n_weights"])
    v = np.copy(w)
    amount = max(np.abs(w).max(), 1.0) * rng.choice([-0.5, 0.5])
    v[i] += amount
    other = kinds.make(p)
    other.set_weights(v)
    case.note(weight=i, amount=amount)
    A, B = kinds.open_loop(base, p)[1], kinds.open_loop(other, p)[1]
    pd, pv = kinds.pos_dims(p)
    moved = np.max(np.abs(A - B), axis=0)
    own = np.zeros(p["n_pos"], dtype=bool)
    if d in pv:
        own[pd[pv.index(d)]] = True
    else:
        for q, s in kinds.ori_dims(p):
            if s.start <= d < s.stop:
                own[q] = True
    case.check(np.all(moved[~own] == 0.0),
               "weight influences other dimensions", moved=moved)
    case.check(np.any(moved[own] > 0.0), "weight has no influence",
               moved=moved)
    # first angular acceleration: only the axis of the weight
    ya, va = kinds.step(base, p, np.copy(p["start_y"]),
                        np.copy(p["start_yd"]))
    yb, vb = kinds.step(other, p, np.copy(p["start_y"]),
                        np.copy(p["start_yd"]))
    dv = np.abs(va - vb)
    mask = np.ones(p["n_vel"], dtype=bool)
    mask[d] = False
    limit = 0.0
    if d not in pv:
        limit = 0.5 * dv[d] + 1e-9  # rotations do not commute
    case.check(np.all(dv[mask] <= limit), "weight accelerates other axes",
               dv=dv)
    case.seen(A)
    case.event("weights_perturbed")


GROUPS = [
    Group("vectors", vectors, 240, 2400),
    Group("behaviour", behaviour, 240, 2400),
    Group("influence", influence, 400, 4000),
]
