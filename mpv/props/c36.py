"""Changes during execution act from the next step on."""
import numpy as np

from .. import kinds, ref
from ..core import Group
from .c02 import Acc, align

PROPERTY = "C36"
TECHNIQUE = ("runtime monitor comparing traces of executions that are changed "
             "on the way with the piecewise solution of the documented "
             "differential equation (high-order ODE solver)")
RULE = ("Random primitives are stepped; at random times goal, final "
        "velocity, weights, execution time, step size or coupling term "
        "are changed. Each part of the trace has to follow the "
        "differential equation with the settings of that part, with step "
        "size extrapolation; before a change nothing may differ from an "
        "unchanged twin.")
ASSUMPTIONS = ["coupling without velocity part", "gains, step sizes within "
               "the stability region of the integrators",
               "orientations stay away from the half turn"]

N = 20


def is_rk4(p):
    return p["kind"] in ("dmp", "cart") and (
        p["variant"] == kinds.DEFAULT or "rk4" in str(p["variant"]))


def random_events(rng, p):
    """{sample: [(what, value), ...]}"""
    names = ["goal", "goal", "weights", "tau", "dt"]
    if p["kind"] == "fv":
        names += ["goal_yd", "goal_yd"]
    if p["kind"] != "dual":
        names += ["coupling"]
    events = {}
    for i in rng.choice(np.arange(1, N - 2), int(rng.integers(1, 4)),
                        replace=False):
        chosen = rng.choice(names, int(rng.integers(1, 3)), replace=False)
        events[int(i)] = [(str(c), new_value(rng, p, str(c)))
                          for c in dict.fromkeys(chosen)]
    return events


def new_value(rng, p, what):
    pd, pv = kinds.pos_dims(p)
    if what == "goal":
        g = np.copy(p["goal_y"])
        g[pd] = rng.normal(size=len(pd)) * p["scale"]
        for q, _ in kinds.ori_dims(p):
            g[q] = kinds.rot_by(rng, g[q], rng.uniform(0.1, 0.5))
            if rng.random() < 0.3:
                g[q] = -g[q]
        return g
    if what == "goal_yd":
        return rng.normal(size=p["n_vel"]) * p["scale"] / p["tau"]
    if what == "weights":
        return p["weights"][:, rng.permutation(p["n_weights"])] \
            * rng.choice([-1.0, 0.0, 0.5, 1.0])
    if what == "tau":
        # the remaining samples have to be within the movement
        return p["tau"] * rng.uniform(1.05, 1.4)
    if what == "dt":
        return int(rng.choice([2, 3]))
    return Acc(rng, p)


def piece(p, T, y, yd, coupling):
    """Solution for one part of the execution."""
    a, b = kinds.full_gains(p)
    acc = None if coupling is None else coupling.acc
    pd, pv = kinds.pos_dims(p)
    s = max(p["scale"], 1e-3)
    if p["kind"] == "fv":
        z = np.zeros(p["n_vel"])
        return ref.final_velocity_ode(
            T, p["tau"], a, b, (p["start_y"], p["start_yd"], z),
            (p["goal_y"], p["goal_yd"], z), p["weights"], acc, scale=s,
            state=(y, yd))
    Y = np.empty((len(T), p["n_pos"]))
    Yd = np.empty((len(T), p["n_vel"]))
    blocks = [pd[:3], pd[3:]] if p["kind"] == "dual" else [pd]
    vblocks = [pv[:3], pv[3:]] if p["kind"] == "dual" else [pv]
    for d, v in zip(blocks, vblocks):
        Y[:, d], Yd[:, v] = ref.dmp_ode(
            T, p["tau"], a[v], b[v], y[d], yd[v], p["goal_y"][d],
            p["weights"][v], p["smooth"], acc, scale=s,
            origin=p["start_y"][d])
    for q, v in kinds.ori_dims(p):
        Y[:, q], Yd[:, v] = ref.quaternion_dmp_ode(
            T, p["tau"], a[v], b[v], y[q], yd[v], p["goal_y"][q],
            p["weights"][v], p["smooth"], acc, origin=p["start_y"][q])
    return Y, Yd


def reference(p, events):
    p = kinds.clone(p)
    h = p["tau"] / N
    y, yd = p["start_y"], p["start_yd"]
    Y, Yd = [y], [yd]
    coupling = None
    starts = [0] + sorted(events)
    for i, end in zip(starts, starts[1:] + [N]):
        for what, value in events.get(i, []):
            if what == "coupling":
                coupling = value if coupling is None else None
            elif what != "dt":
                p[{"goal": "goal_y"}.get(what, what)] = value
        A, B = piece(p, np.arange(i, end + 1) * h, y, yd, coupling)
        Y.extend(A[1:])
        Yd.extend(B[1:])
        y, yd = A[-1], B[-1]
    return np.array(Y), np.array(Yd)


def simulate(p, events, k, stop=N):
    """Samples of spacing tau/N with k (sub)steps each."""
    q = kinds.clone(p)
    h = p["tau"] / N
    rk4 = is_rk4(p)
    q["int_dt"] = h / k
    q["dt"] = h / k if rk4 else h
    stride = k if rk4 else 1
    obj = kinds.make(q)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    Y, Yd = [np.copy(y)], [np.copy(yd)]
    coupling = None
    for i in range(stop):
        for what, value in events.get(i, []):
            if what == "goal":
                obj.configure(goal_y=np.copy(value))
            elif what == "goal_yd":
                obj.configure(goal_yd=np.copy(value))
            elif what == "weights":
                obj.set_weights(np.copy(value).ravel())
            elif what == "tau":
                obj.execution_time_ = value
            elif what == "dt":
                obj.dt_ = q["dt"] / value
                stride = (k if rk4 else 1) * value
            else:
                coupling = value if coupling is None else None
        for _ in range(stride):
            y, yd = kinds.step(obj, q, y, yd, coupling)
        Y.append(np.copy(y))
        Yd.append(np.copy(yd))
    return np.array(Y), np.array(Yd)


def settings(case):
    rng = case.rng
    kind = ("dmp", "cart", "dual", "fv")[case.index % 4]
    p = kinds.random_params(rng, kind, max_angle=1.2)
    p["n_weights"] = int(rng.choice([2, 3, 5, 8, 12]))
    a, b = kinds.full_gains(p)
    amp = 0.1 * a * b
    amp[kinds.pos_dims(p)[1]] = (a * b)[kinds.pos_dims(p)[1]] * p["scale"]
    p["weights"] = rng.normal(size=(p["n_vel"], p["n_weights"])) \
        * amp[:, np.newaxis]
    return p


def changes(case):
    """Goal, weights, time, step size, coupling change on the way."""
    p = settings(case)
    events = random_events(case.rng, p)
    case.note(events={i: [w for w, _ in e] for i, e in events.items()},
              **kinds.describe(p))
    R, Rd = reference(p, events)
    base = 32 if case.tier == "quick" else 48
    A = []
    for k in (base, 2 * base):
        Y, Yd = simulate(p, events, k)
        A.append((align(p, Y, R), Yd))
        case.seen(Y)
    case.event("states_compared", 2 * len(R))
    for e in events.values():
        for what, _ in e:
            case.event("changed_" + what)
    scale = np.maximum(kinds.state_scale(p), np.max(np.abs(R), axis=0))
    vs = np.maximum(kinds.velocity_scale(p), np.max(np.abs(Rd), axis=0))
    case.close(2 * A[1][0] - A[0][0], R, 5e-4,
               "extrapolated trajectory solves the ODE of each part",
               scale=scale)
    case.close(2 * A[1][1] - A[0][1], Rd, 5e-4,
               "extrapolated velocities solve the ODE of each part", scale=vs)


def twin(case):
    """Nothing changes before, and a repeated setting changes nothing."""
    rng = case.rng
    p = settings(case)
    i = int(rng.integers(1, N - 1))
    case.note(at=i, **kinds.describe(p))
    k = int(rng.integers(1, 5)) + (4 if is_rk4(p) else 0)
    Y, Yd = simulate(p, {}, k)
    names = ["goal", "weights"] + (["goal_yd"] if p["kind"] == "fv" else [])
    what = str(rng.choice(names))
    value = {"goal": p["goal_y"], "goal_yd": p["goal_yd"],
             "weights": p["weights"]}[what]
    Y2, Yd2 = simulate(p, {i: [(what, value)]}, k)
    case.equal(Y2, Y, "same setting again")
    case.equal(Yd2, Yd, "same setting again, velocity")
    # there and back before the next step
    other = new_value(rng, p, what)
    Y3, _ = simulate(p, {i: [(what, other), (what, value)]}, k)
    case.equal(Y3, Y, "there and back again")
    if what == "goal_yd" and i > N - 3 or np.array_equal(other, value):
        return
    Y4, _ = simulate(p, {i: [(what, other)]}, k)
    case.equal(Y4[:i + 1], Y[:i + 1], "before the change")
    case.check(not np.array_equal(Y4[-1], Y[-1]), "change has an effect")
    # the rest depends on the new setting only, not on when it was made
    Y5, Yd5 = simulate(p, {i: [(what, new_value(rng, p, what)),
                               (what, other)]}, k)
    case.equal(Y5, Y4, "last setting counts")


GROUPS = [
    Group("changes", changes, 200, 1600),
    Group("twin", twin, 300, 3000),
]
