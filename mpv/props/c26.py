"""Malformed requests are rejected and change nothing."""
import numpy as np

from movement_primitives.data import generate_minimum_jerk
from movement_primitives.dmp import canonical_system_alpha

from .. import kinds
from ..core import Group
from . import c05, promps

PROPERTY = "C26"
TECHNIQUE = ("runtime monitor of rejected requests: an error is raised and a "
             "twin that never got the request behaves the same")
RULE = ("Every kind of malformed argument on every class, before, during "
        "and after executions; afterwards the primitive and its twin perform "
        "the same operations.")
ASSUMPTIONS = []
ERRORS = (ValueError, AssertionError, TypeError)


def wrong_size(rng, n):
    sizes = [k for k in (n - 1, n + 1, 2 * n, 0) if k != n and k >= 0]
    return rng.normal(size=int(rng.choice(sizes)))


def requests(rng, p):
    """List of (name, function of the object, part of the message)."""
    kind, n, v = p["kind"], p["n_pos"], p["n_vel"]
    out = []
    names = ["start_y", "goal_y", "start_yd", "goal_yd", "start_ydd",
             "goal_ydd"]

    def configure(bad):
        size = n if bad in ("start_y", "goal_y") else v
        kw = {bad: wrong_size(rng, size)}
        if size > 1 and rng.random() < 0.2:
            kw[bad] = rng.normal(size=(1, size))
        # other values of the same request are fine
        for k in names:
            if k != bad and rng.random() < 0.5:
                kw[k] = rng.normal(size=n if k in ("start_y", "goal_y")
                                   else v)
        if rng.random() < 0.5:
            kw["t"] = 0.3
        return lambda o: o.configure(**kw)

    for name in names:
        out.append(("configure %s" % name, configure(name), name))
    if kind in kinds.DMP_KINDS:
        w = p["weights"].size
        out.append(("weights", lambda o: o.set_weights(wrong_size(rng, w)),
                    ""))
        out.append(("weights of other shape", lambda o: o.set_weights(
            np.zeros((v, p["n_weights"] + 1))), ""))
        T, Y = kinds.demonstration(rng, p)[:2]
        c = -kinds.logu(rng, 1e-9, 1e3)
        out += [
            ("regularization", lambda o: o.imitate(
                T, Y, regularization_coefficient=c), "egularization"),
            ("times shorter", lambda o: o.imitate(T[:-1], Y), ""),
            ("times longer", lambda o: o.imitate(
                np.r_[T, T[-1] + T[1]], Y), ""),
            ("times constant", lambda o: o.imitate(0 * T, Y), "after start"),
            ("times reversed", lambda o: o.imitate(T[::-1], Y),
             "after start"),
            ("demonstration too narrow", lambda o: o.imitate(
                T, Y[:, :-1]), ""),
            ("demonstration too wide", lambda o: o.imitate(
                T, np.c_[Y, Y]), ""),
        ]
        if n == 1:  # would broadcast
            out = [r for r in out if r[0] != "demonstration too wide"]
        if n == 2:
            out = [r for r in out if r[0] != "demonstration too narrow"]
        for tau in (0.0, -kinds.logu(rng, 1e-3, 1e2)):
            out.append(("execution time", lambda o, t=tau: setattr(
                o, "execution_time_", t), "after start"))
    y, yd = p["start_y"], p["start_yd"]
    if kind != "mj":
        out += [("step state", lambda o: o.step(
                    wrong_size(rng, n) if n > 2 else np.zeros(n + 1), yd),
                 "")]
        out += [("step velocity", lambda o: o.step(
            y, wrong_size(rng, v) if v > 2 else np.zeros(v + 1)), "")]
    if kind == "dmp":
        out += [("integrator of step", lambda o: o.step(
            y, yd, step_function="bogus"), "tep function")]
    if kind in ("dmp", "cart", "dual"):
        out += [("integrator", lambda o: o.open_loop(
            step_function="bogus"), "tep function")]
    if kind == "cart":
        out += [("quaternion integrator", lambda o: o.open_loop(
            quaternion_step_function="bogus"), "tep function")]
    return out


def histories(case):
    rng = case.rng
    kind = c05.KINDS[case.index % len(c05.KINDS)]
    p = c05.params(rng, kind)
    case.note(**kinds.describe(p))
    a, b = kinds.make(p), kinds.make(p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    limit = int(round(p["tau"] / p["dt"]))
    todo = requests(rng, p)
    steps = 0
    for i in rng.permutation(len(todo)):
        name, f, message = todo[i]
        case.raises(ValueError if message else ERRORS, lambda: f(a), name,
                    match=message or None)
        case.event("rejected")
        r = rng.random()
        if r < 0.7:
            if kind == "mj" and steps >= limit:
                continue
            steps += 1
            u = kinds.step(a, p, y, yd)
            w = kinds.step(b, p, y, yd)
            # rounding of the time of rejected steps is not counted
            case.close(u[0], w[0], 1e-9, "step after rejected %s" % name,
                       scale=kinds.state_scale(p))
            case.close(u[1], w[1], 1e-9, "velocity after rejected %s" % name,
                       scale=kinds.velocity_scale(p))
            y, yd = w
        elif r < 0.8 and kind != "mj":
            s = kinds.open_loop(a, p)
            t = kinds.open_loop(b, p)
            case.equal(s[0], t[0], "times after rejected %s" % name)
            case.equal(s[1], t[1], "open loop after rejected %s" % name)
        elif r < 0.9:
            a.reset()
            b.reset()
            steps = 0
            y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
        if kind in kinds.DMP_KINDS:
            case.equal(a.get_weights(), b.get_weights(),
                       "weights after rejected %s" % name)
            case.check(a.execution_time_ == b.execution_time_,
                       "execution time after rejected %s" % name)
        for k in ("start_y", "goal_y", "start_yd", "goal_yd", "start_ydd",
                  "goal_ydd"):
            case.equal(np.array(getattr(a, k)), np.array(getattr(b, k)),
                       "%s after rejected %s" % (k, name))
    a.reset()
    b.reset()
    u, w = kinds.rollout(a, p, 5), kinds.rollout(b, p, 5)
    case.equal(u[0], w[0], "execution after reset")
    if kind != "mj":
        case.equal(kinds.open_loop(a, p)[1], kinds.open_loop(b, p)[1],
                   "open loop at the end")


def constructors(case):
    rng = case.rng
    kind = (kinds.DMP_KINDS + ("sf",))[case.index % 5]
    p = kinds.random_params(rng, kind)
    case.note(**kinds.describe(p))
    v = p["n_vel"]

    def bad(**kw):
        return lambda: kinds.construct(kinds.clone(p, **kw))

    for name in ("alpha", "beta"):
        shapes = [(v + 1,), (v, 2), (1, v)] + ([(v - 1,)] if v > 2 else [])
        for s in shapes:
            case.raises(ValueError, bad(**{name: np.ones(s)}),
                        "gains of shape %s" % name, match=name + "_y")
            case.event("rejected")
    for tau in (0.0, -kinds.logu(rng, 1e-3, 1e2)):
        case.raises(ValueError, bad(tau=tau), "execution time",
                    match="after start")
    if kind != "sf":
        for n in (1, 0, -3):
            case.raises(ValueError, bad(n_weights=n), "basis functions",
                        match="weights")
    else:
        for n in (0, -3):
            case.raises(ValueError, bad(n_weights=n), "via points",
                        match="viapoints")
        case.raises(NotImplementedError, lambda: kinds.make(p).imitate(
            np.linspace(0, 1, 10), np.zeros((10, p["n_dims"]))),
            "imitation of state following DMPs")
    for tau in (0.0, -1.0):
        case.raises(ValueError, lambda: canonical_system_alpha(0.01, tau, 0.0),
                    "canonical system", match="after start")
    case.raises(ValueError, lambda: canonical_system_alpha(
        -rng.random(), 1.0, 0.0), "final phase", match="phase")
    case.raises(ValueError, lambda: generate_minimum_jerk(
        np.zeros(2), np.zeros(3)), "minimum jerk", match="hape")
    # the valid neighbours are accepted
    o = kinds.make(p)
    case.equal(kinds.open_loop(o, p)[1][0], p["start_y"], "valid request")
    for a in (1.0, np.ones(v)):
        kinds.construct(kinds.clone(p, alpha=a))


def probabilistic(case):
    rng = case.rng
    promp, mean, cov, scale = promps.random_promp(rng)
    d, k = promp.n_dims, promp.n_weights_per_dim
    case.note(n_dims=d, n_weights=k)
    T = promps.times(rng, n=12)
    M, C = promp.mean_trajectory(T), promp.cov_trajectory(T)
    todo = [
        ("weights", lambda: promp.trajectory_from_weights(
            T, rng.normal(size=d * k + 1))),
        ("times", lambda: promp.weights(T, np.zeros((11, d)))),
        ("state", lambda: promp.condition_position(np.zeros(d + 2))),
        ("times of demonstrations", lambda: promp.imitate(
            [T / T[-1]] * 3, np.zeros((3, 11, d)))),
        ("dimensions of demonstrations", lambda: promp.imitate(
            [T / T[-1]] * 3, np.zeros((3, 12, d + 1)))),
    ]
    for i in rng.permutation(len(todo)):
        name, f = todo[i]
        if name == "state" and d == 1:
            continue
        case.raises(ERRORS, f, name)
        case.event("rejected")
        case.equal(promp.mean_trajectory(T), M, "mean after rejected " + name)
        case.equal(promp.cov_trajectory(T), C,
                   "covariance after rejected " + name)


GROUPS = [
    Group("histories", histories, 240, 3000),
    Group("constructors", constructors, 50, 500),
    Group("probabilistic", probabilistic, 60, 600),
]
