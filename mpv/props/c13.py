"""Tracking feedback only acts on tracking errors."""
import numpy as np

from .. import kinds, ref
from ..core import Group

PROPERTY = "C13"
TECHNIQUE = ("runtime monitor of twin executions with and without tracking "
             "gain and with deviating feedback")
RULE = ("All DMP kinds with tracking gain, random gains, step sizes, "
        "integrators, feedback that deviates in random dimensions.")
ASSUMPTIONS = ["gain within its documented domain"]
GAIN_KINDS = ("dmp", "fv", "dual")


def params(rng, kind, **kw):
    p = kinds.random_params(rng, kind, **kw)
    # steps that can be added up without rounding errors, otherwise tiny last
    # substeps distribute the correction differently
    dt = 2.0 ** np.floor(np.log2(p["dt"]))
    p["dt"] = dt
    p["int_dt"] = dt * float(rng.choice([1.0, 0.5, 0.25, 2.0]))
    p["p_gain"] = kinds.logu(rng, 1e-3, 1.0) * p["tau"] ** 2 / p["dt"] * 0.2
    p["t"] = 0.0
    if rng.random() < 0.3:
        p["t"] = dt * np.round(rng.uniform(0.0, 4.0) * p["tau"] / dt)
    return p


def make(p):
    """The execution may have begun some time ago."""
    obj = kinds.make(p)
    if p["t"] > 0.0:
        obj.configure(t=p["t"])
    return obj


def exact(case):
    """Exact feedback: as without gain."""
    rng = case.rng
    kind = GAIN_KINDS[case.index % 3]
    p = params(rng, kind)
    case.note(**kinds.describe(p))
    q = kinds.clone(p, p_gain=0.0)
    n = int(rng.integers(5, 40))
    A, Ad = kinds.rollout(make(p), p, n)
    B, Bd = kinds.rollout(make(q), q, n)
    case.event("steps", n)
    s = np.maximum(kinds.state_scale(p), np.max(np.abs(B), axis=0))
    v = np.maximum(kinds.velocity_scale(p), np.max(np.abs(Bd), axis=0))
    case.close(A, B, 1e-8, "gain acts without tracking error", scale=s)
    case.close(Ad, Bd, 1e-8, "gain acts without tracking error (velocity)",
               scale=v)
    if rng.random() < 0.3:
        A, B = kinds.open_loop(make(p), p), kinds.open_loop(
            make(q), q)
        case.close(A[1], B[1], 1e-8, "gain changes open loop",
                   scale=np.max(np.abs(B[1]), axis=0) + 1e-12)


class Push:
    """Constant acceleration."""

    def __init__(self, acceleration):
        self.acceleration = acceleration

    def coupling(self, y, yd):
        return np.zeros_like(yd), np.copy(self.acceleration)


def step(obj, p, y, yd):
    return kinds.step(obj, p, y, yd, coupling_term=p.get("ct"))


def after(p, n, feedback, gain=None):
    """State after n exact steps and then steps with deviating feedback.

    feedback: list of functions that change the fed-back state.
    """
    q = p if gain is None else kinds.clone(p, p_gain=gain)
    obj = make(q)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    for _ in range(n):
        y, yd = step(obj, q, y, yd)
    for f in feedback:
        y, yd = step(obj, q, f(np.copy(y)), yd)
    return y, yd


def deviation(case):
    """DMPs that keep their own state."""
    rng = case.rng
    kind = ("dmp", "fv")[case.index % 2]
    p = params(rng, kind)
    n = int(rng.integers(1, 15))
    m = int(rng.integers(1, 6))
    d = rng.normal(size=p["n_pos"]) * p["scale"]
    d[rng.random(p["n_pos"]) < 0.5] = 0.0
    if not np.any(d):
        d[rng.integers(p["n_pos"])] = p["scale"]
    case.note(deviation=d, n=n, m=m, **kinds.describe(p))
    if rng.random() < 0.4:
        p["ct"] = Push(rng.normal(size=p["n_vel"]) * 10 * p["scale"])
        case.event("with_coupling")
    keep = [lambda y: y] * m

    def run(factor, gain):
        # the deviation is relative to the undisturbed command
        obj = make(kinds.clone(p, p_gain=gain))
        y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
        for _ in range(n):
            y, yd = step(obj, p, y, yd)
        y, yd = step(obj, p, y + factor * d, yd)
        for _ in range(m - 1):
            y, yd = step(obj, p, y, yd)
        return y, yd

    y0, v0 = after(p, n, keep, gain=0.0)
    ys, vs = kinds.state_scale(p), kinds.velocity_scale(p)
    ys = np.maximum(ys, np.abs(y0))
    vs = np.maximum(vs, np.abs(v0))
    case.seen(y0)
    # without gain the feedback does not matter
    y, v = run(1.0, 0.0)
    case.close(y, y0, 1e-9, "feedback disturbs without gain", scale=ys)
    case.close(v, v0, 1e-9, "velocity disturbed without gain", scale=vs)
    g = p["p_gain"]
    y1, v1 = run(1.0, g)
    y2, v2 = run(2.0, g)
    y3, v3 = run(1.0, 2 * g)
    yn, vn = run(-1.0, g)
    for a0, a1, a2, a3, an, s, name in ((y0, y1, y2, y3, yn, ys, "position"),
                                        (v0, v1, v2, v3, vn, vs, "velocity")):
        c = a1 - a0
        zero = d == 0.0
        case.check(np.all(np.abs(c[zero]) <= 1e-9 * s[zero]),
                   "correction of other dimensions (%s)" % name, c=c, d=d)
        t = 1e-7 * (np.max(np.abs(c)) + np.max(s) * 1e-3) + 1e-12
        case.close(a2 - a0, 2 * c, t, "proportional to deviation (%s)" % name,
                   scale=1.0)
        case.close(a3 - a0, 2 * c, t, "proportional to gain (%s)" % name,
                   scale=1.0)
        case.close(an - a0, -c, t, "symmetric (%s)" % name, scale=1.0)
    # direction and size of the first correction
    obj = make(p)
    ref_ = make(kinds.clone(p, p_gain=0.0))
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    ya, va = step(obj, p, y + d, yd)
    yb, vb = step(ref_, p, y, yd)
    i = d != 0.0
    case.check(np.all(np.sign((va - vb)[i]) == -np.sign(d[i])),
               "correction is not directed away from the deviation",
               dv=va - vb, d=d)
    case.check(np.all(np.sign((ya - yb)[i]) == -np.sign(d[i])),
               "position is not corrected away from the deviation",
               dy=ya - yb, d=d)
    # documented domain of the gain: [0, execution_time**2 / dt]
    k = max(1.0, round(p["dt"] / p["int_dt"])) if kind == "fv" \
        or "euler" in str(p["variant"]) else 1.0
    expected = -g * d / p["tau"] ** 2 * k
    case.close((va - vb)[i] / expected[i], np.ones(np.sum(i)), 0.9,
               "size of the correction", scale=1.0)


def velocity_feedback(case):
    """Fed-back velocity does not matter to DMPs that keep their state."""
    rng = case.rng
    kind = ("dmp", "fv")[case.index % 2]
    p = params(rng, kind)
    if rng.random() < 0.5:
        p["p_gain"] = 0.0
    case.note(**kinds.describe(p))
    a, b = make(p), make(p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    A, B = [], []
    z = y
    for _ in range(int(rng.integers(2, 12))):
        noise = rng.normal(size=p["n_vel"]) * p["scale"] / p["tau"]
        w, wd = kinds.step(a, p, y, yd + noise)
        y, yd = kinds.step(b, p, y, yd)
        A.append(np.r_[w, wd])
        B.append(np.r_[y, yd])
    case.equal(A, B, "fed-back velocity changes the state")


def continues(case):
    """Cartesian DMPs continue from the fed-back state."""
    rng = case.rng
    kind = ("cart", "dual")[case.index % 2]
    p = params(rng, kind)
    p["p_gain"] = 0.0
    n = int(rng.integers(1, 10))
    case.note(n=n, **kinds.describe(p))
    a, b = make(p), make(p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    for _ in range(n):
        y, yd = kinds.step(a, p, y, yd)
        noise = rng.normal(size=p["n_vel"]) * 0.1
        kinds.step(b, p, np.copy(p["start_y"]), p["start_yd"] + noise)
    f = kinds.random_state(rng, p, p["scale"])
    for q, _ in kinds.ori_dims(p):
        f[q] = kinds.rot_by(rng, p["goal_y"][q], rng.uniform(0, 2.0))
    fd = rng.normal(size=p["n_vel"]) / p["tau"]
    ya, va = kinds.step(a, p, np.copy(f), np.copy(fd))
    yb, vb = kinds.step(b, p, np.copy(f), np.copy(fd))
    case.close(ya, yb, 1e-12, "history matters", scale=kinds.state_scale(p))
    case.close(va, vb, 1e-12, "history matters (velocity)",
               scale=kinds.velocity_scale(p))
    # the step starts at the fed-back state: smaller steps end closer to it
    pd, pv = kinds.pos_dims(p)
    for factor in (2.0 ** -10, 2.0 ** -14):
        q = kinds.clone(p, dt=p["dt"] * factor, int_dt=p["int_dt"] * factor)
        o = make(q)
        y, v = kinds.step(o, q, np.copy(f), np.copy(fd))
        case.close(y[pd], f[pd], 100 * factor, "starts at fed-back position",
                   scale=kinds.state_scale(p)[pd])
        for s, _ in kinds.ori_dims(p):
            case.close(ref.qdist(y[s], f[s]), 0.0, 50 * factor,
                       "starts at fed-back orientation", scale=1.0)
        acc = np.max(np.abs(p["weights"])) + 1e3 * np.max(
            np.r_[kinds.state_scale(p), 1.0])
        case.close(v, fd, 10 * acc * q["dt"] / p["tau"] ** 2
                   / np.max(kinds.velocity_scale(p)),
                   "starts at fed-back velocity",
                   scale=np.max(kinds.velocity_scale(p)))


def dual_deviation(case):
    rng = case.rng
    p = params(rng, "dual", max_angle=1.5)
    p["p_gain"] = kinds.logu(rng, 1e-3, 0.2) * p["tau"] ** 2 / p["dt"]
    n = int(rng.integers(1, 10))
    d = rng.normal(size=14) * p["scale"]
    d[rng.random(14) < 0.5] = 0.0
    rot = [rng.normal(size=3) * 0.2 if rng.random() < 0.5 else np.zeros(3)
           for _ in range(2)]
    case.note(deviation=d, rotation=rot, n=n, **kinds.describe(p))
    pd, pv = kinds.pos_dims(p)

    def result(factor, gain):
        q = kinds.clone(p, p_gain=gain, int_dt=p["dt"])
        obj = make(q)
        y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
        for _ in range(n):
            y, yd = kinds.step(obj, q, y, yd)
        f = np.copy(y)
        f[pd] += factor * d[pd]
        for (s, _), r in zip(kinds.ori_dims(p), rot):
            f[s] = ref.qmul(ref.qexp(factor * r), f[s])
        return kinds.step(obj, q, f, yd)[1]

    g = p["p_gain"]
    c1 = result(1.0, g) - result(1.0, 0.0)
    c2 = result(2.0, g) - result(2.0, 0.0)
    c3 = result(1.0, 2 * g) - result(1.0, 0.0)
    w = np.zeros(12)
    w[pv] = d[pd]
    for (_, v), r in zip(kinds.ori_dims(p), rot):
        w[v] = r
    expected = -g * w / p["tau"] ** 2
    vs = kinds.velocity_scale(p)
    case.seen(c1)
    size = np.max(np.abs(expected)) + 1e-12
    case.check(np.all(np.abs(c1[w == 0.0]) <= 1e-7 * np.max(vs)),
               "correction of other dimensions", c=c1, w=w)
    t = 1e-6 * size + 1e-8 * np.max(vs)
    case.close(c2, 2 * c1, t, "proportional to deviation", scale=1.0)
    case.close(c3, 2 * c1, t, "proportional to gain", scale=1.0)
    # direction, for rotations the axis as well
    for i in pv:
        if w[i]:
            case.check(c1[i] * w[i] < 0.0, "correction in wrong direction",
                       c=c1, w=w)
    for _, v in kinds.ori_dims(p):
        if np.any(w[v]):
            cosine = np.dot(c1[v], w[v]) / (
                np.linalg.norm(c1[v]) * np.linalg.norm(w[v]))
            case.check(cosine < -1 + 1e-4, "rotation corrected about another "
                       "axis", c=c1, w=w)


GROUPS = [
    Group("exact", exact, 300, 3000),
    Group("deviation", deviation, 300, 3000),
    Group("velocity_feedback", velocity_feedback, 120, 1200),
    Group("continues", continues, 200, 2000),
    Group("dual_deviation", dual_deviation, 200, 2000),
]
