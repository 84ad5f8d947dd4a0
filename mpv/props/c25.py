"""Compiled code stays within its arrays and uses only initialised memory."""
import importlib
import os
import pickle

import numpy as np

from .. import build, core, kinds, peer
from ..core import Group

PROPERTY = "C25"
TECHNIQUE = ("address and undefined behaviour sanitizers, bounds checks of "
             "the compiler, and a memory handler that fills new arrays with "
             "NaN, around the compiled extension in separate processes")
RULE = ("The same calls are executed with the ordinary extension, with an "
        "extension built with address and undefined behaviour sanitizers "
        "whose arrays and local variables are filled with a pattern before "
        "use, and with an extension built with bounds checks. A sanitizer "
        "report, a crash, an out of bounds error or a result that depends on "
        "the build is a violation.")
ASSUMPTIONS = [
    "functions of the compiled module itself get arrays of matching shapes",
    "integration steps are not zero (endless loop)",
    "attributes of the classes are not replaced by hand"]
FILL = 0xFF


# processes ------------------------------------------------------------------

def log_dir():
    return os.environ.get("TMPDIR", "/tmp")


def environment():
    log = os.path.join(log_dir(), "sanitizer")
    return {
        "LD_PRELOAD": build.sanitizer_library(),
        "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:log_path=%s:"
                        "allocator_may_return_null=1" % log,
        "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:log_path=" + log,
        "PYTHONMALLOC": "malloc"}


_environment = None


def sanitized():
    global _environment
    if _environment is None:
        _environment = environment()
    return peer.peer("asan", _environment)


def prepare():
    """Without working sanitizers nothing can be said."""
    build.build_poison()
    for variant in ("normal", "bounds", "asan"):
        build.build(variant)
    p = sanitized()
    p.call("mpv.props.c25:hello")
    p.close()


_poison = None


def poisoned():
    """Fills arrays of this process (sanitized only) with NaN."""
    global _poison
    if _poison is None and "libasan" in os.environ.get("LD_PRELOAD", ""):
        _poison = build.load_poison()
        _poison.install(FILL)
    return _poison


def hello():
    module = poisoned()
    x = np.empty(5)
    n = module.blocks()
    if not (np.all(np.isnan(x)) and n > 0):
        raise RuntimeError("memory handler does not work")
    import movement_primitives.dmp_fast
    return movement_primitives.dmp_fast.__file__


def report(pid):
    try:
        with open(os.path.join(log_dir(), "sanitizer.%d" % pid)) as f:
            text = f.read()
    except OSError:
        return "no report"
    lines = [x for x in text.splitlines()
             if "ERROR" in x or "SUMMARY" in x or "runtime error" in x
             or "pyx_f" in x or "is located" in x]
    return " | ".join(lines)[:1500]


# workloads that are executed in all processes ---------------------------------

def execute(name, args):
    """Runs a workload, reports exceptions as results."""
    module = poisoned()
    before = module.blocks() if module else 0
    try:
        with np.errstate(all="ignore"):
            result = ("value", WORKLOADS[name](*args))
    except Exception as e:
        result = ("error", type(e).__name__, str(e)[:300])
    return result, (module.blocks() - before if module else 0)


def compare(case, name, args, errors=False):
    """Runs a workload with all builds and compares what comes out."""
    data = pickle.dumps(args)
    results = {}
    for variant in ("asan", "bounds"):
        p = sanitized() if variant == "asan" else peer.peer(variant)
        try:
            results[variant], blocks = p.call(
                "mpv.props.c25:execute", name, pickle.loads(data))
        except peer.PeerDied as e:
            case.fail("process died", build=variant, status=str(e),
                      report=report(p.p.pid))
        case.event("runs_" + variant)
        case.event("arrays_filled_with_nan", blocks)
    here, _ = execute(name, pickle.loads(data))
    for variant, r in results.items():
        case.event("verdicts")
        if r[0] == "error" and "ut of bounds on buffer" in r[2]:
            case.fail("access outside of an array", build=variant, error=r)
        if here[0] == "error" or r[0] == "error":
            case.check(here[0] == r[0], "only one build raises an exception",
                       build=variant, here=str(here)[:300], there=str(r)[:300])
            if not errors:
                case.fail("exception", error=r)
            case.seen(str(r[1]))
            case.seen(np.array([1.0, 2.0]))
            case.event("rejected")
            continue
        case.check(len(here[1]) == len(r[1]), "number of results")
        for a, b in zip(here[1], r[1]):
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            case.check(a.shape == b.shape, "shapes of results", build=variant)
            case.check(np.array_equal(np.isnan(a), np.isnan(b)),
                       "result depends on the content of new memory",
                       build=variant, here=a, there=b)
            fa = np.isfinite(a) & np.isfinite(b)
            case.check(np.array_equal(a[~fa], b[~fa], equal_nan=True),
                       "infinite results", build=variant)
            if np.any(fa):
                s = max(1.0, float(np.max(np.abs(a[fa]))))
                case.check(np.all(np.abs(a[fa] - b[fa]) <= 1e-7 * s),
                           "result depends on the build", build=variant,
                           deviation=np.max(np.abs(a[fa] - b[fa])), scale=s)
            case.seen(np.nan_to_num(b))
    return here


LAYOUTS = ("plain", "strided", "reversed", "readonly", "fortran", "swapped",
           "float32", "inner")


def layout(x, kind):
    """The same numbers with another memory layout."""
    x = np.array(x, dtype=float)
    if kind == "strided":
        b = np.full(3 * x.size + 1, np.nan)[1:]
        v = b[::3][:x.size]
        v[:] = x
        return v
    if kind == "reversed":
        return x[::-1].copy()[::-1]
    if kind == "readonly":
        x.setflags(write=False)
        return x
    if kind == "fortran":
        return np.asfortranarray(np.vstack((x, x, x)))[1]
    if kind == "swapped":
        return x.astype(">f8")
    if kind == "float32":
        return x.astype(np.float32)
    if kind == "inner":  # directly between foreign numbers
        return np.concatenate(([np.nan], x, [np.nan]))[1:-1]
    return x


class Coupling:
    """Coupling whose arrays have a strange layout."""

    def __init__(self, k, kind):
        self.k = k
        self.kind = kind

    def coupling(self, y, yd):
        return (layout(0.0 * yd, self.kind),
                layout(-self.k * yd, self.kind))


def coupling_term(spec, p):
    from movement_primitives import dmp as d
    if spec is None:
        return None
    name, args = spec
    if name == "own":
        return Coupling(*args)
    return getattr(d, name)(*args[0], **args[1])


def random_coupling(rng, p):
    kind, n, s = p["kind"], p["n_dims"], p["scale"]
    options = [None, ("own", (rng.uniform(0, 1) * p["tau"],
                              LAYOUTS[rng.integers(len(LAYOUTS))]))]
    weak = dict(k=0.1, c1=0.1, c2=0.5)
    if kind == "dmp" and n == 2:
        for fast in (True, False, True):
            options.append(("CouplingTermObstacleAvoidance2D", (
                (rng.normal(size=2) * s,), dict(gamma=1.0, fast=fast))))
        options.append(("CouplingTermPos1DToPos1D", (
            (0.1 * s, [(1.0, 0.0), (0.0, 1.0)][rng.integers(2)]), weak)))
    if kind == "dmp" and n == 3:
        options.append(("CouplingTermObstacleAvoidance3D", (
            (rng.normal(size=3) * s,), dict(gamma=1.0))))
    if kind == "dmp" and n == 6:
        options.append(("CouplingTermPos3DToPos3D", (
            (rng.normal(size=3) * s, (1.0, 0.0)), weak)))
    if kind == "dual":
        options.append(("CouplingTermDualCartesianDistance", (
            (0.2, (1.0, 0.0)), weak)))
    return options[rng.integers(len(options))]


def motion(p, spec, layouts, n):
    """Steps and open loop with arrays of a given layout."""
    out = []
    obj = kinds.construct(p)
    kinds.set_weights(obj, p)
    kw = {k: layout(p[k], layouts[i]) for i, k in enumerate(
        ("start_y", "goal_y", "start_yd"))}
    obj.configure(**kw)
    y, yd = layout(p["start_y"], layouts[3]), layout(p["start_yd"], layouts[4])
    for _ in range(n):
        ct = coupling_term(spec, p)
        y, yd = kinds.step(obj, p, y, yd, ct)
        out += [np.copy(y), np.copy(yd)]
        y, yd = layout(y, layouts[3]), layout(yd, layouts[4])
    obj.reset()
    T, Y = kinds.open_loop(obj, p, p["tau"], coupling_term(spec, p))
    return out + [T, Y]


def imitation(p, T, Y, layouts):
    obj = kinds.construct(p)
    A = np.array(Y)
    if layouts[0] == "strided":
        A = np.repeat(A, 2, axis=0)[::2]
    elif layouts[0] == "reversed":
        A = A[::-1].copy()[::-1]
    elif layouts[0] == "fortran":
        A = np.asfortranarray(A)
    elif layouts[0] == "readonly":
        A.setflags(write=False)
    obj.imitate(layout(T, layouts[1]), A)
    T, Y = kinds.open_loop(obj, p, p["tau"])
    return [obj.get_weights(), T, Y]


def helpers(a, b, layouts):
    """Functions of the compiled module with arrays of matching shapes."""
    from movement_primitives import dmp_fast as f
    out = []
    if hasattr(f, "concatenate_quaternions"):
        out.append(f.concatenate_quaternions(
            layout(a[:4], layouts[0]), layout(b[:4], layouts[1])))
    if hasattr(f, "compact_axis_angle_from_quaternion"):
        out.append(f.compact_axis_angle_from_quaternion(
            layout(a[:4], layouts[0])))
    if hasattr(f, "matrix_from_compact_axis_angle"):
        out.append(f.matrix_from_compact_axis_angle(layout(b[:3], layouts[1])))
    if hasattr(f, "obstacle_avoidance_acceleration_2d"):
        out.append(f.obstacle_avoidance_acceleration_2d(
            layout(a[:2], layouts[0]), layout(b[:2], layouts[1]),
            layout(a[2:4], layouts[2]), 1000.0, 3.0))
    if hasattr(f, "phase"):
        out.append(f.phase(layout(a, layouts[0]), abs(b[0]), 1.0, 0.0))
        out.append(f.phase(a[0], b[0], b[1], b[1]))
    return out


def call(p, steps):
    """Construction and calls with arguments as they are."""
    obj = kinds.construct(p)
    out = []
    for what, kw, spec in steps:
        if what == "configure":
            obj.configure(**kw)
        elif what == "step":
            if spec is not None:
                kw = dict(kw, coupling_term=coupling_term(spec, p))
            out += list(obj.step(**kw))
        elif what == "open_loop":
            if spec is not None:
                kw = dict(kw, coupling_term=coupling_term(spec, p))
            out += list(obj.open_loop(**kw))
        elif what == "imitate":
            obj.imitate(**kw)
            out.append(obj.get_weights())
        elif what == "weights":
            obj.set_weights(kw["weights"])
        elif what == "coupling":
            out += list(coupling_term(spec, p).coupling(**kw))
    return out


WORKLOADS = {"motion": motion, "imitation": imitation, "helpers": helpers,
             "call": call}


# groups -----------------------------------------------------------------------

def compiled(rng, p):
    """Mostly the compiled integrators."""
    names = [v for v in kinds.variants(p["kind"])
             if v == kinds.DEFAULT or "cython" in v
             or any("cython" in x for x in v if isinstance(v, tuple))]
    p["variant"] = names[rng.integers(len(names))]


def motions(case):
    rng = case.rng
    kind = ("dmp", "cart", "dual", "dmp")[case.index % 4]
    p = kinds.random_params(rng, kind, p_gain=rng.random() < 0.5)
    compiled(rng, p)
    spec = random_coupling(rng, p)
    layouts = [LAYOUTS[i] for i in rng.integers(len(LAYOUTS), size=5)]
    case.note(coupling=str(spec), layouts=layouts, **kinds.describe(p))
    compare(case, "motion", (p, spec, layouts, 6))


def imitations(case):
    rng = case.rng
    kind = ("dmp", "cart", "dual")[case.index % 3]
    p = kinds.random_params(rng, kind)
    compiled(rng, p)
    T, Y = kinds.demonstration(rng, p)
    layouts = [LAYOUTS[rng.integers(6)] for i in range(2)]
    if layouts[1] == "swapped":
        layouts[1] = "plain"
    case.note(layouts=layouts, **kinds.describe(p))
    compare(case, "imitation", (p, T, Y, layouts))


SPECIAL = (0.0, -0.0, np.nan, np.inf, -np.inf, 1e308, -1e308, 5e-324, 1e-200,
           1.0, -1.0)


def special(rng, x, n=1):
    x = np.array(x, dtype=float)
    for _ in range(n):
        x.flat[rng.integers(x.size)] = SPECIAL[rng.integers(len(SPECIAL))]
    return x


def helper_calls(case):
    rng = case.rng
    a, b = rng.normal(size=(2, 6)) * kinds.logu(rng, 1e-9, 10.0)
    r = rng.random()
    if r < 0.3:
        a[:4], b[:4] = kinds.quat(rng), kinds.quat(rng)
    elif r < 0.6:
        a, b = special(rng, a, 2), special(rng, b, 2)
    elif r < 0.7:
        a, b = np.zeros(6), special(rng, b)
    # the compiled functions refuse other types by design
    safe = ("plain", "strided", "reversed", "fortran", "inner")
    layouts = [safe[i] for i in rng.integers(len(safe), size=3)]
    case.note(a=a, b=b, layouts=layouts)
    compare(case, "helpers", (a, b, layouts))


def extreme(case):
    """NaN, infinities and huge numbers in all arguments."""
    rng = case.rng
    kind = ("dmp", "cart", "dual")[case.index % 3]
    p = kinds.random_params(rng, kind, p_gain=rng.random() < 0.5)
    compiled(rng, p)
    for k in ("start_y", "goal_y", "start_yd", "weights"):
        if rng.random() < 0.4:
            p[k] = special(rng, p[k], int(rng.integers(1, 4)))
    spec = random_coupling(rng, p) if rng.random() < 0.5 else None
    case.note(coupling=str(spec), **kinds.describe(p))
    # some combinations are rejected with an exception
    compare(case, "motion", (p, spec, ["plain"] * 5, 4), errors=True)


def spoiled(rng, x):
    """Array with wrong length, shape or type."""
    x = np.array(x, dtype=float)
    n = len(x)
    r = rng.integers(11)
    if r == 0:
        return x[:-1].copy()
    if r == 1:
        return np.append(x, 1.0)
    if r == 2:
        return x[:1].copy()
    if r == 3:
        return np.empty(0)
    if r == 4:
        return x[:, np.newaxis].copy()
    if r == 5:
        return x[np.newaxis].copy()
    if r == 6:
        return x.astype(complex)
    if r == 7:
        x = np.round(x)
        if n % 7 == 0:  # states with orientations
            x[:] = np.tile((0, 1, 2, 1, 0, 0, 0), n // 7)
        return x.astype(int)
    if r == 8:
        return np.array([None] * n)
    if r == 9:
        return x.astype(np.float16)
    return [float(v) for v in x]


def wrong(case):
    """Wrong shapes and types: exception or result, but no corruption."""
    rng = case.rng
    kind = ("dmp", "cart", "dual")[case.index % 3]
    p = kinds.random_params(rng, kind, n_dims=int(rng.integers(1, 5)))
    steps = [("configure", {k: p[k] for k in
                            ("start_y", "goal_y", "start_yd")}, None)]
    target = ("configure", "step", "open_loop", "imitate", "weights",
              "coupling", "coupling")[rng.integers(7)]
    spec = None
    if target == "configure":
        kw = {}
        for k in ("start_y", "goal_y", "start_yd", "start_ydd", "goal_yd",
                  "goal_ydd"):
            if rng.random() < 0.4:
                kw[k] = spoiled(rng, p[k] if k in p
                                else np.zeros(p["n_vel"]))
        steps.append(("configure", kw, None))
    elif target == "step":
        kw = dict(last_y=p["start_y"], last_yd=p["start_yd"])
        k = ("last_y", "last_yd")[rng.integers(2)]
        kw[k] = spoiled(rng, kw[k])
        steps.append(("step", kw, None))
    elif target == "imitate":
        T, Y = kinds.demonstration(rng, p)
        r = rng.integers(7)
        if r == 0:
            Y = Y[:, :-1].copy()
        elif r == 1:
            T = T[:-1].copy()
        elif r == 2:
            Y = Y.astype(np.float32)
        elif r == 3:
            Y = np.hstack((Y, Y))
        elif r == 4:
            Y = Y[:3].copy()
        elif r == 5:
            T, Y = T[:1].copy(), Y[:1].copy()
        else:
            Y = np.round(Y * 10)
            for q, _ in kinds.ori_dims(p):
                Y[:, q] = (1.0, 0.0, 0.0, 0.0)
            Y = Y.astype(int)
        steps.append(("imitate", dict(T=T, Y=Y), None))
    elif target == "weights":
        steps.append(("weights", dict(
            weights=spoiled(rng, p["weights"].ravel())), None))
    elif target == "coupling":
        # a term for another number of dimensions
        other = rng.normal(size=int(rng.integers(1, 5)))
        terms = [
            ("CouplingTermObstacleAvoidance2D", ((other,), dict(fast=True))),
            ("CouplingTermObstacleAvoidance2D", ((other,), dict(fast=True))),
            ("CouplingTermObstacleAvoidance3D", ((other,), {})),
            ("CouplingTermPos1DToPos1D", ((1.0, (1.0, 0.0)), {})),
            ("CouplingTermDualCartesianDistance", ((1.0, (1.0, 0.0)), {})),
            ("own", (1.0, "plain"))]
        spec = terms[rng.integers(len(terms))]
        if rng.random() < 0.5:
            steps.append(("coupling", dict(
                y=spoiled(rng, rng.normal(size=2)),
                yd=spoiled(rng, rng.normal(size=2))), spec))
        else:
            steps.append(("step", dict(last_y=p["start_y"],
                                       last_yd=p["start_yd"]), spec))
    steps.append(("step", dict(last_y=p["start_y"], last_yd=p["start_yd"]),
                  None))
    steps.append(("open_loop", {}, spec))
    case.note(target=target, spec=str(spec), steps=str(steps[1])[:300],
              **kinds.describe(p))
    here = compare(case, "call", (p, steps), errors=True)
    # what is not rejected is computed correctly
    there = peer.peer("none").call("mpv.props.c25:execute", "call",
                                   (p, steps))[0]
    if here[0] == "value":
        case.check(there[0] == "value", "accepted by the compiled code only",
                   error=there)
        for a, b in zip(here[1], there[1]):
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            if kind != "dmp":
                # orientations are not normalised in the same way
                pd = dict(zip((p["n_pos"], p["n_vel"]), kinds.pos_dims(p)))
                if a.shape[-1] not in pd:
                    continue
                a, b = a[..., pd[a.shape[-1]]], b[..., pd[b.shape[-1]]]
            s = max(1.0, np.max(np.abs(a[np.isfinite(a)]), initial=0.0))
            case.check(a.shape == b.shape and np.allclose(
                a, b, rtol=0, atol=1e-4 * s, equal_nan=True),
                "result without the extension", compiled=a, python=b)
    case.event("target_" + target)


# Cases of other properties that drive the compiled code in further ways.
OTHERS = (("c01", "direct"), ("c01", "stepping"), ("c01", "helpers"),
          ("c04", None), ("c05", None), ("c13", None), ("c14", None),
          ("c15", None))


def foreign(module, group, index, seed, tier):
    """Runs one case of another property, returns its violations."""
    poison = poisoned()
    before = poison.blocks() if poison else 0
    m = importlib.import_module("mpv.props." + module)
    g = [g for g in m.GROUPS if g.name == group][0]
    case = core.Case(m.PROPERTY, g.name, index, seed, tier)
    core.run_case(g.fn, case, g.limit)
    return [(v["what"], str(v["detail"])[:400]) for v in case.violations], \
        (poison.blocks() - before if poison else 0)


def others(case):
    """Cases of other properties give the same verdict with all builds."""
    rng = case.rng
    name, group = OTHERS[case.index % len(OTHERS)]
    module = importlib.import_module("mpv.props." + name)
    if group is None or group not in [g.name for g in module.GROUPS]:
        groups = [g.name for g in module.GROUPS]
        group = groups[rng.integers(len(groups))]
    index = int(rng.integers(1000))
    case.note(module=name, foreign_group=group, foreign_index=index)
    args = (name, group, index, case.seed, "quick")
    results = {}
    for variant in ("asan", "bounds"):
        p = sanitized() if variant == "asan" else peer.peer(variant)
        try:
            results[variant], blocks = p.call("mpv.props.c25:foreign", *args)
        except peer.PeerDied as e:
            case.fail("process died", build=variant, status=str(e),
                      report=report(p.p.pid))
        case.event("runs_" + variant)
        case.event("arrays_filled_with_nan", blocks)
    here, _ = foreign(*args)
    for variant, there in results.items():
        for what, detail in there:
            case.check("ut of bounds on buffer" not in detail,
                       "access outside of an array", build=variant,
                       detail=detail)
        case.check(bool(here) == bool(there),
                   "observations depend on the build", build=variant,
                   here=here, there=there)
    case.seen(np.array([index, 1.0, len(group)]))


GROUPS = [
    Group("motions", motions, 160, 1600),
    Group("imitations", imitations, 45, 400),
    Group("helpers", helper_calls, 400, 6000),
    Group("extreme", extreme, 90, 900),
    Group("wrong", wrong, 200, 2400),
    Group("others", others, 48, 480),
]
