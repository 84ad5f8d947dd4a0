"""Reset and past use leave no trace."""
import copy

import numpy as np

from .. import kinds
from ..core import Group

PROPERTY = "C05"
TECHNIQUE = ("runtime history monitor: random operation histories against a "
             "fresh object that only got the final configuration")
RULE = ("Random histories of steps, n-steps, open-loop runs, configuration, "
        "learning, weight and execution-time changes on all primitive kinds.")
ASSUMPTIONS = ["start states are configured before reset (documented use)"]
KINDS = kinds.ALL_KINDS + ("mj",)
TOL = 1e-9


def params(rng, kind):
    if kind != "mj":
        return kinds.random_params(rng, kind)
    p = kinds.random_params(rng, "dmp")
    p["kind"] = "mj"
    n = int(rng.integers(8, 60))
    p["dt"] = float(rng.choice([0.01, 0.1, 0.03, 0.5]))
    p["tau"] = n * p["dt"]
    p["start_yd"] = np.zeros(p["n_vel"])
    p["variant"] = kinds.DEFAULT
    return p


class Twin:
    """The object under test and what a fresh one would have to be told."""

    def __init__(self, p):
        self.p = kinds.clone(p)
        self.obj = kinds.construct(p)
        self.learn = None
        self.y = np.copy(p["start_y"])
        self.yd = np.copy(p["start_yd"])

    def fresh(self):
        obj = kinds.construct(self.p)
        if self.learn is not None:
            obj.imitate(np.copy(self.learn[0]), np.copy(self.learn[1]),
                        **self.learn[2])
        else:
            kinds.set_weights(obj, self.p)
        self.configure(obj)
        return obj

    def configure(self, obj):
        kinds.configure(obj, self.p)


def replay(t, obj, case, n, coupling=None):
    """Trajectory of the following steps."""
    if t.p["kind"] == "mj":
        n = min(n, int(round(t.p["tau"] / t.p["dt"])) - 1)
    Y, Yd = kinds.rollout(obj, t.p, n)
    case.event("steps", n)
    return Y, Yd


def random_op(t, rng, case):
    p, obj = t.p, t.obj
    kind = p["kind"]
    ops = ["step", "step", "goal", "start", "reset"]
    if kind != "mj":
        ops += ["open_loop", "open_loop", "n_steps"]
    if kind in kinds.DMP_KINDS:
        ops += ["weights", "imitate", "tau", "tau_undone"]
    if kind == "sf":
        ops += ["weights"]
    op = ops[rng.integers(len(ops))]
    case.event(op)
    if op == "step":
        n = int(rng.integers(1, 8))
        if kind == "mj":
            t.obj.reset()
            n = min(n, int(round(p["tau"] / p["dt"])) - 1)
        for _ in range(n):
            t.y, t.yd = kinds.step(obj, p, t.y, t.yd)
    elif op == "n_steps":
        t.y, t.yd = obj.n_steps_open_loop(t.y, t.yd, int(rng.integers(1, 6)))
    elif op == "open_loop":
        kinds.open_loop(obj, p, p["tau"] * rng.uniform(0.1, 1.2))
    elif op == "goal":
        g = kinds.random_state(rng, p, p["scale"])
        for q, _ in kinds.ori_dims(p):
            g[q] = kinds.rot_by(rng, p["start_y"][q], rng.uniform(0, 2.0))
        p["goal_y"] = g
        obj.configure(goal_y=np.copy(g))
    elif op == "start":
        s = kinds.random_state(rng, p, p["scale"])
        for q, _ in kinds.ori_dims(p):
            s[q] = kinds.rot_by(rng, p["goal_y"][q], rng.uniform(0, 2.0))
        p["start_y"] = s
        obj.configure(start_y=np.copy(s))
    elif op == "reset":
        obj.reset()
        t.y, t.yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    elif op == "weights":
        if kind == "sf":
            p["viapoints"] = rng.normal(size=p["viapoints"].shape) * p["scale"]
        else:
            p["weights"] = p["weights"] * rng.uniform(-1.2, 1.2)
        t.learn = None
        kinds.set_weights(obj, p)
    elif op == "imitate":
        kw = {}
        if rng.random() < 0.3:
            kw["regularization_coefficient"] = 1e-6
        demo = kinds.demonstration(rng, p, n=int(rng.integers(20, 60)),
                                   tau=kinds.exec_time(rng))
        t.learn = (demo[0], demo[1], kw)
        obj.imitate(np.copy(demo[0]), np.copy(demo[1]), **kw)
        # learning configures start and goal, tell the object again below
    elif op in ("tau", "tau_undone"):
        old = p["tau"]
        new = old * rng.uniform(0.8, 1.25)
        obj.execution_time_ = new
        if op == "tau":
            p["tau"] = new
        else:
            if rng.random() < 0.5:
                kinds.open_loop(obj, p, 0.5 * old)
            obj.execution_time_ = old


def histories(case):
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    t = Twin(params(rng, kind))
    kinds.set_weights(t.obj, t.p)
    kinds.configure(t.obj, t.p)
    n = int(rng.integers(1, 12))
    names = []
    for _ in range(n):
        before = dict(case.events)
        random_op(t, rng, case)
        names += [k for k in case.events if k != "verdicts"
                  and case.events[k] != before.get(k, 0)]
    if rng.random() < 0.25:  # a zero is as good as any other value
        for k in ("start_y", "goal_y", "start_yd", "goal_yd"):
            if k in t.p and rng.random() < 0.5:
                z = np.zeros_like(t.p[k])
                if k[-1] == "y":
                    for q, _ in kinds.ori_dims(t.p):
                        z[q] = t.p[k][q]
                t.p[k] = z
        names.append("zeros")
    case.note(history=names, **kinds.describe(t.p))
    t.configure(t.obj)
    t.obj.reset()
    m = int(rng.integers(3, 40))
    fresh = t.fresh()
    if rng.random() < 0.5:
        fresh.reset()
    s, v = kinds.state_scale(t.p), kinds.velocity_scale(t.p)
    A, Ad = replay(t, t.obj, case, m)
    B, Bd = replay(t, fresh, case, m)
    s = np.maximum(s, np.max(np.abs(B), axis=0))
    v = np.maximum(v, np.max(np.abs(Bd), axis=0))
    case.close(A, B, TOL, "reset object equals fresh object", scale=s)
    case.close(Ad, Bd, TOL, "velocities after reset", scale=v)
    if kind != "mj":
        run_t = t.p["tau"] * rng.uniform(0.2, 1.2)
        C = kinds.open_loop(t.obj, t.p, run_t)
        D = kinds.open_loop(fresh, t.p, run_t)
        case.close(C[0], D[0], TOL, "open-loop times", scale=t.p["tau"])
        case.close(C[1], D[1], TOL, "open-loop states", scale=np.maximum(
            s, np.max(np.abs(D[1]), axis=0)))
    # second reset, same trajectory
    t.obj.reset()
    E, _ = replay(t, t.obj, case, m)
    case.close(E, A, TOL, "second reset", scale=s)


def undisturbed(case):
    """Open-loop runs in between do not disturb an execution under way."""
    rng = case.rng
    kind = kinds.ALL_KINDS[case.index % len(kinds.ALL_KINDS)]
    p = kinds.random_params(rng, kind, p_gain=rng.random() < 0.5)
    case.note(**kinds.describe(p))
    a, b = kinds.make(p), kinds.make(p)
    ya = yb = np.copy(p["start_y"])
    da = db = np.copy(p["start_yd"])
    run_t = p["tau"] * rng.uniform(0.2, 1.1)
    first = kinds.open_loop(a, p, run_t)
    A, B = [], []
    for i in range(int(rng.integers(5, 30))):
        if rng.random() < 0.4:
            again = kinds.open_loop(a, p, run_t)
            case.equal(again[0], first[0], "open-loop times repeat")
            case.equal(again[1], first[1], "open-loop states repeat")
            case.event("open_loop_in_between")
        ya, da = kinds.step(a, p, ya, da)
        yb, db = kinds.step(b, p, yb, db)
        A.append(np.r_[ya, da])
        B.append(np.r_[yb, db])
    case.equal(A, B, "execution under way is not disturbed")


def n_steps(case):
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    p = params(rng, kind)
    case.note(**kinds.describe(p))
    a, b = kinds.make(p), kinds.make(p)
    ya = yb = np.copy(p["start_y"])
    da = db = np.copy(p["start_yd"])
    for n in rng.integers(0, 5, size=4):
        if kind == "mj" and n == 0:
            continue
        ya, da = a.n_steps_open_loop(ya, da, int(n))
        for _ in range(int(n)):
            yb, db = kinds.step(b, p, yb, db, None, kinds.DEFAULT)
        case.equal(ya, yb, "n steps at once, states")
        case.equal(da, db, "n steps at once, velocities")
        if kind == "mj" and rng.random() < 0.1:
            break
        if kind == "mj":
            a.reset(), b.reset()


def clock(case):
    """Time can be set, a reset goes back to the state before the start."""
    rng = case.rng
    kind = kinds.ALL_KINDS[case.index % len(kinds.ALL_KINDS)]
    p = kinds.random_params(rng, kind)
    case.note(**kinds.describe(p))
    a = kinds.make(p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    for _ in range(int(rng.integers(1, 12))):
        y, yd = kinds.step(a, p, y, yd)
    case.check(abs(a.t - a.last_t - p["dt"]) < 1e-9 * p["tau"],
               "difference of time and last time", t=a.t, last_t=a.last_t)
    t0 = [0.0, 0, p["tau"], p["tau"] * rng.uniform(0.1, 1.2)][
        rng.integers(4)]
    b = copy.deepcopy(a)
    b.t = float(t0)
    if rng.random() < 0.5:
        a.configure(t=t0)
    else:
        a.configure(t=t0, goal_y=np.copy(p["goal_y"]))
    case.check(a.t == t0, "time was set", t=a.t, expected=t0)
    case.event("time_set_to_%s" % ("zero" if t0 == 0 else "other"))
    A, Ad = kinds.rollout(a, p, 6, y=y, yd=yd)
    B, Bd = kinds.rollout(b, p, 6, y=y, yd=yd)
    case.equal(A, B, "states after time was set")
    case.equal(Ad, Bd, "velocities after time was set")
    a.reset()
    case.check(a.t == 0 and a.last_t is None, "clock after reset", t=a.t,
               last_t=a.last_t)
    if kind not in ("sd", "sdo"):
        case.equal(a.current_y, p["start_y"], "current state after reset")
        case.equal(a.current_yd, p["start_yd"],
                   "current velocity after reset")
    case.event("resets")


GROUPS = [
    Group("histories", histories, 800, 8000),
    Group("undisturbed", undisturbed, 210, 2100),
    Group("n_steps", n_steps, 160, 1600),
    Group("clock", clock, 210, 2100),
]
