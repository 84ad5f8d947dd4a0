"""Potential field of planar DMPs."""
import copy

import numpy as np

from movement_primitives.dmp import DMP, CouplingTermObstacleAvoidance2D
from movement_primitives.dmp_potential_field import (
    potential_field_2d, plot_potential_field_2d)

from .. import kinds, ref
from ..core import Group

PROPERTY = "C29"
TECHNIQUE = ("runtime reference monitor: the field is compared with the "
             "equations of the DMP and with accelerations that are observed "
             "when a copy of the DMP is stepped from the grid point")
RULE = ("Random planar DMPs (weights, gains, goals, smooth scaling, times) "
        "are stepped, then the field for random ranges, resolutions and "
        "obstacles is computed, checked, and the DMP compared with a copy.")
ASSUMPTIONS = [
    "the field shows the acceleration at the DMP's current velocity",
    "obstacle avoidance with default parameters"]


def prepare_dmp(rng):
    p = kinds.random_params(rng, "dmp", n_dims=2)
    dmp = kinds.make(p)
    r = rng.random()
    if r < 0.25:
        T, Y = kinds.demonstration(rng, p)
        dmp.imitate(T, Y, allow_final_velocity=bool(rng.random() < 0.5))
        p["weights"] = np.array(dmp.get_weights()).reshape(2, -1)
        p["start_y"], p["goal_y"] = np.copy(Y[0]), np.copy(Y[-1])
        if rng.random() < 0.5:
            p["goal_y"] = p["goal_y"] + rng.normal(size=2) * p["scale"]
            dmp.configure(goal_y=p["goal_y"])
        dmp.configure(start_yd=p["start_yd"])
    elif r < 0.4:
        dmp.configure(goal_yd=rng.normal(size=2) * p["scale"] / p["tau"],
                      goal_ydd=rng.normal(size=2) * p["scale"])
    n = int(rng.integers(0, 30)) if rng.random() < 0.8 else 0
    y, yd = np.copy(p["start_y"]), np.copy(p["start_yd"])
    for _ in range(n):
        y, yd = dmp.step(y, yd)
    return p, dmp, n, y, np.copy(dmp.current_yd)


def avoid(Y, v, obstacle, gamma=1000.0, beta=20.0 / np.pi):
    """Acceleration perpendicular to the velocity, away from the obstacle."""
    d = obstacle - Y
    nd, nv = np.linalg.norm(d, axis=-1), np.linalg.norm(v)
    cross = d[..., 0] * v[1] - d[..., 1] * v[0]
    dot = d @ v
    theta = np.arccos(np.clip(dot / (nd * nv + 1e-10), -1.0, 1.0))
    turned = np.stack((-np.sign(cross) * v[1], np.sign(cross) * v[0]), axis=-1)
    return gamma * turned * (theta * np.exp(-beta * theta))[..., np.newaxis]


def field(case):
    rng = case.rng
    p, dmp, n, y, yd = prepare_dmp(rng)
    tau, t = p["tau"], n * p["dt"]
    scale = max(np.max(np.abs(p["start_y"])), np.max(np.abs(p["goal_y"])))
    lo = rng.normal(size=2) * scale
    hi = lo + np.array([kinds.logu(rng, 0.1, 5.0) for _ in range(2)]) * scale
    for d in range(2):
        if rng.random() < 0.1:  # from right to left
            lo[d], hi[d] = hi[d], lo[d]
    ticks = int(rng.choice([1, 2, 3, 5, 10, 15]))
    obstacle = None if rng.random() < 0.4 \
        else rng.uniform(np.minimum(lo, hi), np.maximum(lo, hi)) if rng.random() < 0.7 \
        else rng.normal(size=2) * scale
    if obstacle is not None and rng.random() < 0.15:
        obstacle[:] = 0.0
    case.note(steps=n, lo=lo, hi=hi, ticks=ticks, obstacle=obstacle,
              **kinds.describe(p))
    args = (tuple(map(float, (lo[0], hi[0]))), tuple(map(float, (
        lo[1], hi[1]))), ticks)
    kept = copy.deepcopy(dmp)
    result = potential_field_2d(
        dmp, *args, **({} if obstacle is None else
                       {"obstacle": np.copy(obstacle)}))
    case.check(len(result) == 6, "six results")
    xx, yy, ft, ts, ct, acc = [np.asarray(x, dtype=float) for x in result]
    case.event("grid_points", ticks ** 2)
    ex, ey = np.linspace(lo[0], hi[0], ticks), np.linspace(lo[1], hi[1], ticks)
    case.check(xx.shape == (ticks, ticks) and yy.shape == (ticks, ticks),
               "shape of grid")
    case.close(xx, np.tile(ex, (ticks, 1)), 1e-12, "x of grid", scale=scale)
    case.close(yy, np.tile(ey[:, np.newaxis], (1, ticks)), 1e-12, "y of grid",
               scale=scale)
    for x in (ft, ts, ct, acc):
        case.check(x.shape == (ticks, ticks, 2), "shape of field")
    a, b = kinds.full_gains(p)
    P = np.stack((xx, yy), axis=-1)
    z = ref.phase(t, tau)
    smooth = b * (p["goal_y"] - p["start_y"]) * z if p["smooth"] else 0.0
    attractor = a * (b * (p["goal_y"] - P) - tau * yd - smooth) / tau ** 2
    f = ref.forcing(t, tau, p["weights"]) / tau ** 2
    force = np.broadcast_to(f, P.shape)
    s = max(np.max(np.abs(attractor)), np.max(np.abs(f)))
    case.close(ts, attractor, 1e-8, "attractor", scale=s)
    case.close(ft, force, 1e-6, "forcing", scale=s)
    if obstacle is None:
        case.check(not np.any(ct), "no coupling without obstacle")
        coupling = 0.0 * P
    else:
        coupling = avoid(P, yd, obstacle) / tau ** 2
        s2 = 1000.0 * np.linalg.norm(yd) / tau ** 2 + 1e-9 * s
        case.close(ct, coupling, 1e-5, "coupling", scale=s2)
        s += s2
    case.close(acc, ft + ts + ct, 1e-12, "sum of all parts", scale=s)
    # unchanged
    for k, v in vars(kept).items():
        w = getattr(dmp, k)
        if isinstance(v, (np.ndarray, float, int)) or v is None:
            case.check(type(v) == type(w) and np.array_equal(v, w),
                       "DMP was changed", attribute=k)
    case.equal(dmp.get_weights(), kept.get_weights(), "weights of the DMP")
    u, v = kinds.step(kept, p, y, yd)
    u2, v2 = kinds.step(dmp, p, y, yd)
    case.equal(u, u2, "next position")
    case.equal(v, v2, "next velocity")


def stepped(case):
    """Accelerations that are observed when the DMP moves."""
    rng = case.rng
    while True:
        p, dmp, n, y, yd = prepare_dmp(rng)
        if n > 0:
            break
    tau = p["tau"]
    scale = max(np.max(np.abs(p["start_y"])), np.max(np.abs(p["goal_y"])))
    lo = rng.normal(size=2) * scale
    hi = lo + rng.uniform(0.5, 2.0) * scale
    obstacle = None if rng.random() < 0.5 else rng.normal(size=2) * scale
    case.note(steps=n, lo=lo, hi=hi, obstacle=obstacle, **kinds.describe(p))
    xx, yy, ft, ts, ct, acc = potential_field_2d(
        dmp, (lo[0], hi[0]), (lo[1], hi[1]), 4, obstacle)
    s = np.max(np.abs(acc)) + np.max(np.abs(ft)) + np.max(np.abs(ts))
    for _ in range(4):
        i, j = rng.integers(4, size=2)
        d = copy.deepcopy(dmp)
        h = 1e-6 * tau
        d.dt_ = h
        point = np.array([xx[i, j], yy[i, j]])
        d.current_y = np.copy(point)
        ct_ = None if obstacle is None \
            else CouplingTermObstacleAvoidance2D(np.copy(obstacle))
        v0 = np.copy(d.current_yd)
        _, v = d.step(point, v0, coupling_term=ct_, step_function="euler")
        case.event("steps")
        case.close((v - v0) / h, acc[i, j], 1e-3, "observed acceleration",
                   scale=s, part="total")
        d = copy.deepcopy(dmp)
        d.dt_ = h
        d.current_y = np.copy(point)
        _, v = d.step(point, v0, step_function="euler")
        case.close((v - v0) / h, acc[i, j] - ct[i, j], 1e-3,
                   "observed acceleration without coupling", scale=s)


def arrows(case):
    """Arrows of the plot are the field, all in the same scale."""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.colors import to_rgba
    from matplotlib.figure import Figure
    from matplotlib.quiver import Quiver
    rng = case.rng
    p, dmp, n, y, yd = prepare_dmp(rng)
    scale = max(np.max(np.abs(p["start_y"])), np.max(np.abs(p["goal_y"])))
    lo = rng.normal(size=2) * scale
    hi = lo + rng.uniform(0.5, 2.0, size=2) * scale
    ticks = int(rng.integers(2, 12))
    obstacle = None if rng.random() < 0.3 else rng.normal(size=2) * scale
    case.note(steps=n, lo=lo, hi=hi, ticks=ticks, obstacle=obstacle,
              **kinds.describe(p))
    xx, yy, ft, ts, ct, acc = potential_field_2d(
        dmp, (lo[0], hi[0]), (lo[1], hi[1]), ticks, obstacle)
    ax = Figure().add_subplot()
    kw = {}
    if obstacle is not None:
        kw["obstacle"] = np.copy(obstacle)
    if rng.random() < 0.5:
        kw["exaggerate_arrows"] = kinds.logu(rng, 0.5, 50.0)
    plot_potential_field_2d(
        ax, dmp, (lo[0], hi[0]), (lo[1], hi[1]), ticks, **kw)
    quivers = [c for c in ax.collections if isinstance(c, Quiver)]
    case.check(len(quivers) == 4, "four kinds of arrows", n=len(quivers))
    case.event("arrows", 4 * ticks ** 2)
    m = np.max(np.abs(acc))
    factor = None
    for color, part in (("k", acc), ("g", ts), ("r", ft), ("y", ct)):
        q = [c for c in quivers
             if np.allclose(c.get_facecolor()[0], to_rgba(color))]
        case.check(len(q) == 1, "one set of arrows per color", color=color)
        q = q[0]
        order = np.lexsort((np.ravel(q.X), np.ravel(q.Y)))
        mine = np.lexsort((xx.ravel(), yy.ravel()))
        case.close(np.ravel(q.X)[order], xx.ravel()[mine], 1e-9,
                   "x of arrows", scale=scale)
        case.close(np.ravel(q.Y)[order], yy.ravel()[mine], 1e-9,
                   "y of arrows", scale=scale)
        size = np.stack((np.ravel(q.U)[order], np.ravel(q.V)[order])) \
            / (1.0 if q.scale is None else q.scale)
        field_ = np.stack((part[..., 0].ravel()[mine],
                           part[..., 1].ravel()[mine]))
        if factor is None:
            i = np.argmax(np.abs(field_))
            factor = size.ravel()[i] / field_.ravel()[i]
            case.check(factor > 0.0 and np.isfinite(factor),
                       "arrows point along the acceleration")
        case.close(size / factor, field_, 1e-8, "arrows show the field",
                   scale=m + np.max(np.abs(field_)), color=color)


GROUPS = [
    Group("field", field, 600, 12000),
    Group("stepped", stepped, 300, 6000),
    Group("arrows", arrows, 60, 600),
]
