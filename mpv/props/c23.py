"""Saving and loading preserves the behaviour."""
import json
import os
import shutil
import tempfile

import numpy as np
import yaml

from movement_primitives import io
from movement_primitives.dmp import (
    CouplingTermObstacleAvoidance3D, CouplingTermPos1DToPos1D,
    CouplingTermPos3DToPos3D, CouplingTermDualCartesianDistance,
    CouplingTermDualCartesianPose)
from movement_primitives.promp import ProMP

from .. import kinds, ref
from ..core import Group
from . import promps

PROPERTY = "C23"
TECHNIQUE = ("runtime differential monitor: traces and attributes of "
             "original and loaded primitives")
RULE = ("All primitive classes, three formats, states (fresh, configured, "
        "learned, mid-execution, after reset), Python and NumPy scalars and "
        "arrays as parameters.")
ASSUMPTIONS = ["files are written to a scratch directory"]
FORMATS = {"pickle": (io.write_pickle, io.read_pickle),
           "yaml": (io.write_yaml, io.read_yaml),
           "json": (io.write_json, io.read_json)}
COUPLINGS = (
    CouplingTermObstacleAvoidance3D, CouplingTermPos1DToPos1D,
    CouplingTermPos3DToPos3D, CouplingTermDualCartesianDistance,
    CouplingTermDualCartesianPose)
KINDS = kinds.ALL_KINDS + ("mj",)
ATTRIBUTES = ["n_dims", "n_vel_dims", "start_y", "start_yd", "start_ydd",
              "goal_y", "goal_yd", "goal_ydd", "current_y", "current_yd",
              "execution_time", "execution_time_", "dt", "dt_", "int_dt",
              "smooth_scaling", "p_gain", "k", "c", "n_weights_per_dim", "t",
              "last_t", "initialized", "alpha_y", "beta_y", "n_weights",
              "weight_mean", "weight_cov", "centers"]


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="io")
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.path)

    def file(self, name):
        return os.path.join(self.path, name)


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def numpy_scalars(rng, p):
    """Same settings, numbers as NumPy scalars."""
    q = kinds.clone(p)
    for k in ("tau", "dt", "int_dt", "p_gain", "k", "c", "alpha", "beta"):
        if isinstance(q.get(k), float) and rng.random() < 0.8:
            q[k] = np.float64(q[k])
    if rng.random() < 0.5:
        q["smooth"] = np.bool_(q["smooth"])
    if rng.random() < 0.5:
        q["n_weights"] = np.int64(q["n_weights"])
        q["n_dims"] = np.int64(q["n_dims"])
    return q


def primitive(rng, kind):
    p = kinds.random_params(rng, "dmp" if kind == "mj" else kind,
                            p_gain=True)
    if kind == "mj":
        p["kind"], p["variant"] = "mj", kinds.DEFAULT
        p["dt"] = p["tau"] / 20
        p["start_yd"] = np.zeros(p["n_vel"])
    r = rng.random()
    if r < 0.15 and p["alpha"] is not None and kind != "sf":
        p["alpha"], p["beta"] = kinds.full_gains(p)
    return p


def observe(obj, p, n):
    """Open-loop trace and step trace from the start."""
    out = []
    if p["kind"] != "mj":
        T, Y = kinds.open_loop(obj, p)
        out += [np.asarray(T), np.asarray(Y)]
    obj.reset()
    Y, V = kinds.rollout(obj, p, n)
    return out + [Y, V]


def prepared(case, p, state):
    rng = case.rng
    obj = kinds.construct(p)
    if state == "fresh":
        return obj, None
    if state == "learned" and p["kind"] in kinds.DMP_KINDS:
        kw = {}
        T, Y = kinds.demonstration(rng, p)[:2]
        obj.imitate(T, Y, **kw)
    else:
        kinds.set_weights(obj, p)
    kinds.configure(obj, p)
    last = None
    if state in ("mid-execution", "reset"):
        n = int(rng.integers(1, 12))
        Y, V = kinds.rollout(obj, p, n)
        last = Y[-1], V[-1]
    if state == "reset":
        obj.reset()
        last = None
    if state == "configured" and rng.random() < 0.3 \
            and hasattr(obj, "execution_time_"):
        obj.execution_time_ = 1.5 * p["tau"]
        p["tau"] *= 1.5
    return obj, last


def round_trip(case):
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    fmt = list(FORMATS)[(case.index // len(KINDS)) % 3]
    state = str(rng.choice(["fresh", "configured", "learned",
                            "mid-execution", "mid-execution", "reset"]))
    p = primitive(rng, kind)
    if rng.random() < 0.4:
        p = numpy_scalars(rng, p)
    case.note(fmt=fmt, state=state, **kinds.describe(p))
    write, read = FORMATS[fmt]
    obj, last = prepared(case, p, state)
    with Scratch() as s:
        write(s.file("a"), obj)
        again = read(s.file("a"))
        write(s.file("b"), again)
        third = read(s.file("b"))
        write(s.file("c"), obj)
        if fmt != "pickle":
            with open(s.file("a")) as f, open(s.file("b")) as g, \
                    open(s.file("c")) as h:
                a, b, c = ((json.load if fmt == "json" else yaml.safe_load)(x)
                           for x in (f, g, h))
            case.check(a == b, "file of loaded primitive differs",
                       keys=[k for k in a if a[k] != b.get(k)])
            case.check(a == c, "written twice, file differs")
    case.check(type(again) is type(obj), "class")
    for name in ATTRIBUTES:
        if hasattr(obj, name):
            case.check(hasattr(again, name) and same(
                getattr(obj, name), getattr(again, name)),
                "attribute %s" % name, a=getattr(obj, name),
                b=getattr(again, name, "missing"))
    if p["kind"] in kinds.DMP_KINDS:
        case.equal(again.get_weights(), obj.get_weights(), "weights")
    if last is not None:
        for k in range(5):
            u = kinds.step(obj, p, *last)
            v = kinds.step(again, p, *last)
            w = kinds.step(third, p, *last)
            case.equal(v[0], u[0], "continuation")
            case.equal(v[1], u[1], "continuation (velocity)")
            case.equal(w[0], u[0], "continuation of second copy")
            last = u
            case.event("continued_steps")
    for o in (obj, again, third):
        if state == "fresh":
            kinds.configure(o, p)
        o.reset()
    A = observe(obj, p, 8)
    for name, other in (("loaded", again), ("loaded twice", third)):
        B = observe(other, p, 8)
        for a, b in zip(A, B):
            case.equal(b, a, "trajectory of %s primitive" % name)
    case.event("states_compared", sum(len(a) for a in A))
    # the loaded primitive can be configured and used like the original
    if p["kind"] in kinds.DMP_KINDS:
        w = rng.normal(size=obj.get_weights().size)
        obj.set_weights(w)
        again.set_weights(w)
        for a, b in zip(observe(obj, p, 4), observe(again, p, 4)):
            case.equal(b, a, "new weights")


def untouched(case):
    """Writing does not change the original."""
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    p = primitive(rng, kind)
    n = int(rng.integers(2, 10))
    case.note(n=n, **kinds.describe(p))
    a, b = kinds.construct(p), kinds.construct(p)
    for o in (a, b):
        kinds.set_weights(o, p)
        kinds.configure(o, p)
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    with Scratch() as s:
        for i in range(n):
            fmt = str(rng.choice(list(FORMATS)))
            FORMATS[fmt][0](s.file("f"), a)
            u, v = kinds.step(a, p, y, yd), kinds.step(b, p, y, yd)
            case.equal(u[0], v[0], "state after writing")
            case.equal(u[1], v[1], "velocity after writing")
            y, yd = v
            # loading does not change it either
            FORMATS[fmt][1](s.file("f"))
            case.event("writes")


def scalars(case):
    """NumPy and Python scalars are stored alike."""
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    p = primitive(rng, kind)
    q = numpy_scalars(rng, p)
    case.note(**kinds.describe(p))
    with Scratch() as s:
        for fmt in ("json", "yaml"):
            write, read = FORMATS[fmt]
            write(s.file("a"), kinds.make(p))
            write(s.file("b"), kinds.make(q))
            with open(s.file("a")) as f, open(s.file("b")) as g:
                a, b = f.read(), g.read()
            case.check(a == b, "files differ", fmt=fmt)
            A = observe(read(s.file("a")), p, 4)
            B = observe(read(s.file("b")), p, 4)
            for x, y in zip(A, B):
                case.equal(x, y, "behaviour")


def probabilistic(case):
    rng = case.rng
    state = str(rng.choice(["fresh", "given", "learned", "conditioned"]))
    fmt = list(FORMATS)[case.index % 3]
    promp, mean, cov, scale = promps.random_promp(rng, max_dims=3)
    if state == "fresh":
        promp = ProMP(promp.n_dims, promp.n_weights_per_dim)
    elif state == "learned":
        t = np.linspace(0, 1, 20)
        promp.imitate(np.array([t] * 4), promps.demonstrations(
            rng, 4, 20, promp.n_dims, 1.0, 0.3)(t), n_iter=3)
    elif state == "conditioned":
        promp = promp.condition_position(
            rng.normal(size=promp.n_dims), y_cov=np.eye(promp.n_dims), t=0.3)
    case.note(fmt=fmt, state=state, n_dims=promp.n_dims,
              n_weights=promp.n_weights_per_dim)
    write, read = FORMATS[fmt]
    with Scratch() as s:
        write(s.file("a"), promp)
        again = read(s.file("a"))
        write(s.file("b"), again)
        third = read(s.file("b"))
    T = promps.times(rng)
    for o in (again, third):
        for name in ATTRIBUTES:
            if hasattr(promp, name):
                case.check(same(getattr(promp, name), getattr(o, name)),
                           "attribute %s" % name)
        case.equal(o.mean_trajectory(T), promp.mean_trajectory(T), "mean")
        case.equal(o.cov_trajectory(T), promp.cov_trajectory(T), "cov")
        case.equal(o.var_velocities(T), promp.var_velocities(T), "velocity")
        case.equal(o.sample_trajectories(T, 2, np.random.RandomState(1)),
                   promp.sample_trajectories(T, 2, np.random.RandomState(1)),
                   "samples")
        y = np.zeros(promp.n_dims)
        N = np.eye(promp.n_dims)
        case.equal(o.condition_position(y, N, t=0.5).weight_mean,
                   promp.condition_position(y, N, t=0.5).weight_mean,
                   "conditioned")
    case.event("promps")


def couplings(case):
    """Coupling terms that consist of numbers and arrays."""
    rng = case.rng
    fmt = list(FORMATS)[case.index % 3]
    cls = COUPLINGS[case.index // 3 % len(COUPLINGS)]
    lf = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0)][rng.integers(3)]
    if rng.random() < 0.3:
        lf = [list, np.array][rng.integers(2)](lf)
    gains = dict(k=kinds.logu(rng, 0.1, 5.0), c1=kinds.logu(rng, 0.1, 100.0),
                 c2=kinds.logu(rng, 1.0, 100.0))
    y, yd = rng.normal(size=14), rng.normal(size=12)
    for q in (slice(3, 7), slice(10, 14)):
        y[q] = kinds.quat(rng)
    if cls is CouplingTermObstacleAvoidance3D:
        ct = cls(rng.normal(size=3), kinds.logu(rng, 1.0, 1e3),
                 beta=kinds.logu(rng, 0.1, 10.0))
        y, yd = y[:3], yd[:3]
    elif cls is CouplingTermPos1DToPos1D:
        ct = cls(float(rng.normal()), lf, **gains)
        y, yd = y[:2], yd[:2]
    elif cls is CouplingTermPos3DToPos3D:
        ct = cls(rng.normal(size=3), lf, **gains)
        y, yd = y[:6], yd[:6]
    elif cls is CouplingTermDualCartesianDistance:
        ct = cls(float(rng.normal()), lf, **gains)
    else:
        A = np.eye(4)
        A[:3, :3] = ref.qmat(kinds.quat(rng))
        A[:3, 3] = rng.normal(size=3)
        ct = cls(A, lf, couple_position=bool(rng.integers(2)),
                 couple_orientation=bool(rng.integers(2)), **gains)
    case.note(fmt=fmt, cls=cls.__name__, lf=lf, **gains)
    expected = ct.coupling(np.copy(y), np.copy(yd))
    write, read = FORMATS[fmt]
    with Scratch() as s:
        write(s.file("a"), ct)
        again = read(s.file("a"))
        write(s.file("b"), again)
        third = read(s.file("b"))
    for o in (ct, again, third):
        case.check(type(o) is cls, "class of the coupling term")
        out = o.coupling(np.copy(y), np.copy(yd))
        case.equal(out[0], expected[0], "velocity of the coupling term")
        case.equal(out[1], expected[1], "acceleration of the coupling term")
    case.seen(np.r_[expected[0], expected[1]])
    case.event("coupling_terms")


GROUPS = [
    Group("couplings", couplings, 90, 1000),
    Group("round_trip", round_trip, 360, 4000),
    Group("untouched", untouched, 96, 1000),
    Group("scalars", scalars, 96, 1000),
    Group("probabilistic", probabilistic, 90, 1000),
]
