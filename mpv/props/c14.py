"""Coupling terms move followers to the desired relation."""
import numpy as np

from movement_primitives.dmp import (
    DMP, DualCartesianDMP, CouplingTermPos1DToPos1D, CouplingTermPos3DToPos3D,
    CouplingTermDualCartesianDistance, CouplingTermDualCartesianPose,
    CouplingTermDualCartesianTrajectory)

from .. import kinds, ref
from ..core import Group, silence

PROPERTY = "C14"
TECHNIQUE = ("runtime monitor of coupling outputs and of coupled executions "
             "against uncoupled twins")
RULE = ("Random desired relations, leaders and followers, gains, states, "
        "all coupling terms, alone and in executions of DMPs.")
ASSUMPTIONS = ["coupling gains and steps for which the explicit integration "
               "is stable"]
LF = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.5, 0.5), (0.3, 0.9)]


def pose(rng, spread=1.0):
    return np.r_[rng.normal(size=3) * spread, kinds.quat(rng)]


def matrix(pq):
    T = np.eye(4)
    T[:3, :3] = ref.qmat(pq[3:])
    T[:3, 3] = pq[:3]
    return T


def compose(a, b):
    """Pose of b given in frame a."""
    return np.r_[a[:3] + ref.qmat(a[3:]).dot(b[:3]), ref.qmul(a[3:], b[3:])]


def relative(left, right):
    """Pose of the right arm in the frame of the left arm."""
    R = ref.qmat(left[3:])
    return np.r_[R.T.dot(right[:3] - left[:3]),
                 ref.qmul(ref.qconj(left[3:]), right[3:])]


def pose_error(y, desired):
    """Position error and rotation vector in the frame of the left arm."""
    r = relative(y[:7], y[7:])
    return desired[:3] - r[:3], ref.qlog(
        ref.qmul(desired[3:], ref.qconj(r[3:])))


def random_lf(rng):
    if rng.random() < 0.1:
        return (0.0, 0.0)
    return LF[rng.integers(len(LF))]


def vector_terms(case):
    """Couplings of positions."""
    rng = case.rng
    kind = ("1d", "3d", "distance")[case.index % 3]
    lf = random_lf(rng)
    gains = dict(k=kinds.logu(rng, 0.2, 5.0), c1=kinds.logu(rng, 0.5, 100),
                 c2=kinds.logu(rng, 5.0, 100))
    scale = kinds.logu(rng, 0.01, 100)
    n = {"1d": 1, "3d": 3, "distance": 3}[kind]
    desired = rng.normal(size=n) * scale
    if rng.random() < 0.15:
        desired[rng.random(n) < 0.7] = 0.0
    if kind == "1d":
        desired = float(desired[0])
        ct = CouplingTermPos1DToPos1D(desired, lf, **gains)
    elif kind == "3d":
        ct = CouplingTermPos3DToPos3D(desired, lf, **gains)
    else:
        desired = float(desired[0])
        ct = CouplingTermDualCartesianDistance(desired, lf, **gains)
    case.note(kind=kind, lf=lf, desired=desired, scale=scale, **gains)
    if kind == "distance":
        y = np.r_[pose(rng, scale), pose(rng, scale)]
        a, b, va, vb = slice(0, 3), slice(7, 10), slice(0, 3), slice(6, 9)
        m = 12
    else:
        y = rng.normal(size=2 * n) * scale
        a, b, va, vb = slice(0, n), slice(n, 2 * n), slice(0, n), \
            slice(n, 2 * n)
        m = 2 * n

    def call(y):
        before = np.copy(y)
        yd = rng.normal(size=m)
        out = ct.coupling(y, yd)
        case.equal(y, before, "state changed")
        cd, cdd = np.asarray(out[0]), np.asarray(out[1])
        case.check(cd.shape == (m,) and cdd.shape == (m,), "shape",
                   cd=cd.shape, cdd=cdd.shape)
        case.seen(np.r_[cd, cdd])
        return cd, cdd

    def error(y):
        d = y[b] - y[a]
        if kind == "distance":
            return d * (abs(desired) / np.linalg.norm(d) - 1.0)
        return np.atleast_1d(desired) - d

    e = error(y)
    for c in call(y):
        # first arm has to move against the error, second one along
        for s, f, sign in ((va, lf[0], -1.0), (vb, lf[1], 1.0)):
            if f == 0.0:
                case.check(np.all(c[s] == 0.0), "coupling acts on a leader",
                           c=c, lf=lf)
            else:
                u, w = c[s] * sign, e
                cosine = np.dot(u, w) / (np.linalg.norm(u)
                                         * np.linalg.norm(w) + 1e-300)
                case.check(cosine > 1.0 - 1e-6, "does not point toward the "
                           "desired relation", c=c, e=e, cosine=cosine)
        rest = np.ones(m, dtype=bool)
        rest[va] = False
        rest[vb] = False
        case.check(np.all(c[rest] == 0.0), "coupling of other dimensions",
                   c=c)
        if lf[0] > 0.0 and lf[1] > 0.0:
            case.close(c[va] / lf[0], -c[vb] / lf[1], 1e-9, "action is "
                       "reaction", scale=np.max(np.abs(c)))
    # proportional to the error
    f = kinds.logu(rng, 0.1, 10.0)
    z = np.copy(y)
    if kind == "distance":
        d = z[b] - z[a]
        r = np.linalg.norm(d)
        new = abs(desired) - f * (abs(desired) - r)
        if new <= 0.05 * r:
            f, new = 1.0, r
        z[b] = z[a] + d / r * new
    else:
        z[b] = z[a] + np.atleast_1d(desired) - f * e
    for c, g in zip(call(y), call(z)):
        case.close(g, f * c, 1e-6, "proportional to the error",
                   scale=max(f, 1.0) * (np.max(np.abs(c)) + 1e-300))
    # desired relation
    z = np.copy(y)
    if kind == "distance" and desired == 0.0:
        return  # no direction
    if kind == "distance":
        d = z[b] - z[a]
        z[b] = z[a] + d / np.linalg.norm(d) * abs(desired)
    else:
        z[b] = z[a] + desired
    for c, g in zip(call(z), call(y)):
        case.close(c, 0 * c, 1e-9, "no coupling in the desired relation",
                   scale=np.max(np.abs(g)) + scale * max(
                       gains["k"] * gains["c1"] * gains["c2"], 1.0))
    # common displacement
    z = np.copy(y)
    shift = rng.normal(size=n) * scale
    z[a] += shift
    z[b] += shift
    for c, g in zip(call(z), call(y)):
        case.close(c, g, 1e-6, "common displacement",
                   scale=np.max(np.abs(g)) + 1e-300)


def pose_term(case):
    rng = case.rng
    lf = random_lf(rng)
    gains = dict(k=kinds.logu(rng, 0.2, 5.0), c1=kinds.logu(rng, 0.5, 10),
                 c2=kinds.logu(rng, 5.0, 100))
    flags = [(True, True), (True, False), (False, True), (False, False)][
        rng.choice(4, p=[.4, .25, .25, .1])]
    left = pose(rng)
    desired = pose(rng)
    # error by less than a half turn
    right = compose(left, desired)
    right[:3] += rng.normal(size=3)
    right[3:] = kinds.rot_by(rng, right[3:], rng.uniform(0.05, 2.8))
    y = np.r_[left, right]
    ct = CouplingTermDualCartesianPose(
        matrix(desired), lf, couple_position=flags[0],
        couple_orientation=flags[1], **gains)
    talking = None if rng.random() < 0.8 else CouplingTermDualCartesianPose(
        matrix(desired), lf, couple_position=flags[0],
        couple_orientation=flags[1], verbose=1, **gains)
    case.note(y=y, desired=desired, lf=lf, flags=flags, **gains)

    def call(y, yd):
        b1, b2 = np.copy(y), np.copy(yd)
        cd, cdd = ct.coupling(y, yd)
        if talking is not None:
            with silence():
                out = talking.coupling(y, yd)
            case.equal(out[0], cd, "verbosity changes the velocity")
            case.equal(out[1], cdd, "verbosity changes the acceleration")
        case.equal(np.r_[y, yd], np.r_[b1, b2], "arguments changed")
        case.check(np.shape(cd) == (12,) and np.shape(cdd) == (12,), "shape")
        case.seen(np.r_[cd, cdd])
        return cd, cdd

    rest = np.zeros(12)
    ep, er = pose_error(y, desired)
    R = ref.qmat(left[3:])
    # motion of the right arm that removes the error
    target = np.r_[R.dot(ep), R.dot(er)]
    for c in call(y, rest):
        for i, (f, sign) in enumerate(((lf[0], -1.0), (lf[1], 1.0))):
            for j in range(2):
                part = c[6 * i + 3 * j:6 * i + 3 * j + 3]
                if f == 0.0 or not flags[j]:
                    case.check(np.all(part == 0.0), "coupling acts on leader "
                               "or uncoupled part", c=c, lf=lf, flags=flags)
                    continue
                w = sign * target[3 * j:3 * j + 3]
                cosine = np.dot(part, w) / (np.linalg.norm(part)
                                            * np.linalg.norm(w) + 1e-300)
                case.check(cosine > 1.0 - 1e-6, "does not point toward the "
                           "desired relation", c=c, target=target,
                           cosine=cosine, arm=i, part=j)
    # common motion of both arms
    common = pose(rng)
    z = np.r_[compose(common, left), compose(common, right)]
    C = ref.qmat(common[3:])
    turn = np.kron(np.eye(4), C)
    for c, g in zip(call(z, rest), call(y, rest)):
        case.close(c, turn.dot(g), 1e-7, "common motion of both arms",
                   scale=np.max(np.abs(g)) + 1e-9)
    # sign of quaternions
    z = np.copy(y)
    z[3:7] *= -1.0
    if rng.random() < 0.5:
        z[10:] *= -1.0
    for c, g in zip(call(z, rest), call(y, rest)):
        case.close(c, g, 1e-7, "sign of quaternions",
                   scale=np.max(np.abs(g)) + 1e-9)
    # desired relation
    z = np.r_[left, compose(left, desired)]
    s = gains["k"] * max(gains["c1"], gains["c2"])
    for c in call(z, rest):
        case.close(c, 0 * c, 1e-6, "no coupling in the desired relation",
                   scale=s)
    # damping
    yd = rng.normal(size=12)
    d = call(y, yd)[1] - call(y, rest)[1]
    for i in range(2):
        for j in range(2):
            k = slice(6 * i + 3 * j, 6 * i + 3 * j + 3)
            if lf[i] == 0.0 or not flags[j]:
                case.check(np.all(d[k] == 0.0), "velocity of leader", d=d)
            else:
                cosine = np.dot(d[k], yd[k]) / (
                    np.linalg.norm(d[k]) * np.linalg.norm(yd[k]) + 1e-300)
                case.check(cosine < -1 + 1e-6, "velocity is not damped", d=d)


def run_params(rng, dual):
    tau = float(rng.choice([0.5, 1.0, 2.0, 5.0]))
    return dict(execution_time=tau, dt=tau / 100, int_dt=tau / 400)


def coupled_vectors(case):
    """Executions of coupled position DMPs."""
    rng = case.rng
    kind = ("1d", "3d", "distance")[case.index % 3]
    lf = LF[rng.integers(len(LF))]
    kw = run_params(rng, kind == "distance")
    agree = case.index // 3 % 2 == 0
    tau = kw["execution_time"]
    if kind == "1d":
        dmp = DMP(2, **kw)
        desired = float(rng.normal()) if rng.random() < 0.8 else 0.0
        ct = CouplingTermPos1DToPos1D(
            desired, lf, k=kinds.logu(rng, 0.5, 1.5),
            c1=kinds.logu(rng, 1, 80), c2=kinds.logu(rng, 10, 40))
        start, goal = rng.normal(size=2), rng.normal(size=2)
        a, b = slice(0, 1), slice(1, 2)
    else:
        desired = rng.normal(size=3)
        if rng.random() < 0.2:
            desired[rng.random(3) < 0.7] = 0.0
        k = dict(k=kinds.logu(rng, 0.5, 1.5), c1=kinds.logu(rng, 0.5, 10),
                 c2=kinds.logu(rng, 10, 60))
        if kind == "3d":
            dmp = DMP(6, **kw)
            ct = CouplingTermPos3DToPos3D(desired, lf, **k)
            start, goal = rng.normal(size=6), rng.normal(size=6)
            a, b = slice(0, 3), slice(3, 6)
        else:
            dmp = DualCartesianDMP(**kw)
            desired = kinds.logu(rng, 0.3, 3.0)
            ct = CouplingTermDualCartesianDistance(desired, lf, **k)
            start, goal = np.r_[pose(rng), pose(rng)], np.r_[pose(rng),
                                                             pose(rng)]
            for q in (slice(3, 7), slice(10, 14)):
                goal[q] = kinds.rot_by(rng, start[q], rng.uniform(0, 2))
            a, b = slice(0, 3), slice(7, 10)
    d = goal[b] - goal[a]
    if agree:
        if kind == "distance":
            goal[b] = goal[a] + d / np.linalg.norm(d) * desired
        else:
            goal[b] = goal[a] + desired
    n = dmp.get_weights().size
    amp = 10.0 if kind == "distance" else 40.0
    dmp.set_weights(rng.normal(size=n) * amp)
    dmp.configure(start_y=start, goal_y=goal)
    case.note(kind=kind, lf=lf, desired=desired, agree=agree, start=start,
              goal=goal, k=ct.k, c1=ct.c1, c2=ct.c2, **kw)
    Y = dmp.open_loop(run_t=4 * tau, coupling_term=ct)[1]
    Z = dmp.open_loop(run_t=4 * tau)[1]
    case.event("states_compared", len(Y))
    case.check(np.all(np.isfinite(Y)), "not finite")
    for s, f in ((a, lf[0]), (b, lf[1])):
        if f == 0.0:
            case.close(Y[:, s], Z[:, s], 1e-12, "leader is disturbed",
                       scale=np.max(np.abs(Z)))
        else:
            case.check(np.any(Y[:, s] != Z[:, s]), "follower is not coupled")
    rest = np.ones(Y.shape[1], dtype=bool)
    rest[a] = False
    rest[b] = False
    case.close(Y[:, rest], Z[:, rest], 1e-12, "uncoupled dimensions",
               scale=1.0)

    def error(y):
        if kind == "distance":
            return abs(np.linalg.norm(y[b] - y[a]) - desired)
        return np.linalg.norm(y[b] - y[a] - desired)

    size = np.max(np.abs(np.r_[start[a], start[b], goal[a], goal[b]]))
    if agree:
        case.close(error(Y[-1]), 0.0, 1e-3, "settles in desired relation",
                   scale=size)
        if kind != "distance":
            case.close(Y[-1], goal, 1e-3, "reaches the goals", scale=size)
    else:
        e, u = error(Y[-1]), error(Z[-1])
        if u > 0.01 * size:
            case.check(e < u, "coupling does not reduce the error",
                       coupled=e, uncoupled=u)


def coupled_poses(case):
    rng = case.rng
    lf = LF[rng.integers(len(LF))]
    flags = [(True, True), (True, False), (False, True)][rng.integers(3)]
    agree = case.index % 2 == 0
    kw = run_params(rng, True)
    tau = kw["execution_time"]
    k = dict(k=kinds.logu(rng, 0.5, 1.5), c1=kinds.logu(rng, 0.5, 4),
             c2=kinds.logu(rng, 10, 60))
    desired = pose(rng)
    desired[3:] = kinds.rot_by(rng, np.array([1.0, 0, 0, 0]),
                               rng.uniform(0, 2.0))
    left, right = pose(rng), pose(rng)
    right[3:] = kinds.rot_by(rng, compose(left, desired)[3:],
                             rng.uniform(0, 0.8))
    start = np.r_[left, right]
    goal = np.r_[left + np.r_[rng.normal(size=3), np.zeros(4)],
                 right + np.r_[rng.normal(size=3), np.zeros(4)]]
    goal[3:7] = kinds.rot_by(rng, left[3:], rng.uniform(0, 0.5))
    goal[10:] = kinds.rot_by(rng, right[3:], rng.uniform(0, 0.5))
    if agree:
        goal[7:] = compose(goal[:7], desired)
    ct = CouplingTermDualCartesianPose(
        matrix(desired), lf, couple_position=flags[0],
        couple_orientation=flags[1], **k)
    dmp = DualCartesianDMP(**kw)
    dmp.set_weights(rng.normal(size=dmp.n_weights) * 8.0)
    dmp.configure(start_y=start, goal_y=goal)
    name = ("python", "cython")[rng.integers(2)]
    case.note(lf=lf, flags=flags, agree=agree, desired=desired, start=start,
              goal=goal, step=name, **k)
    Y = dmp.open_loop(run_t=4 * tau, coupling_term=ct, step_function=name)[1]
    Z = dmp.open_loop(run_t=4 * tau, step_function=name)[1]
    case.event("states_compared", len(Y))
    case.check(np.all(np.isfinite(Y)), "not finite")
    for i in range(2):
        for j, s in enumerate((slice(7 * i, 7 * i + 3),
                               slice(7 * i + 3, 7 * i + 7))):
            if lf[i] == 0.0 or not flags[j]:
                case.close(Y[:, s], Z[:, s], 1e-12, "leader or uncoupled part "
                           "is disturbed", scale=np.max(np.abs(Z)))
            else:
                case.check(np.any(Y[:, s] != Z[:, s]),
                           "follower is not coupled")
    e, u = pose_error(Y[-1], desired), pose_error(Z[-1], desired)
    if agree:
        if flags[0]:
            case.close(np.linalg.norm(e[0]), 0.0, 1e-3,
                       "position settles in desired relation", scale=1.0)
        if flags[1]:
            case.close(np.linalg.norm(e[1]), 0.0, 1e-3,
                       "orientation settles in desired relation", scale=1.0)
    else:
        for j in range(2):
            if flags == (j == 0, j == 1):
                a, b = np.linalg.norm(e[j]), np.linalg.norm(u[j])
                if b > 0.02:
                    case.check(a < b, "coupling does not reduce the error",
                               coupled=a, uncoupled=b, part=j)


def trajectory_term(case):
    """Relative poses of a demonstration."""
    rng = case.rng
    n = int(rng.integers(5, 30))
    dt = kinds.logu(rng, 0.01, 1.0)
    lf = LF[rng.integers(len(LF))]
    fine = int(rng.choice([1, 1, 2, 3]))
    T = dt * fine * np.arange(n)
    left, right = pose(rng), pose(rng)
    wl, wr = rng.normal(size=6), rng.normal(size=6)
    s = np.linspace(0, 1, n)
    Y = np.empty((n, 14))
    for i in range(n):
        for a, p, w in ((0, left, wl), (7, right, wr)):
            Y[i, a:a + 3] = p[:3] + s[i] * w[:3]
            Y[i, a + 3:a + 7] = ref.qmul(ref.qexp(s[i] * w[3:]), p[3:])
    if rng.random() < 0.3:
        Y[::2, 3:7] *= -1.0
    ct = CouplingTermDualCartesianTrajectory(
        offset=np.zeros(7), lf=lf, dt=dt, verbose=0)
    Y0 = np.copy(Y)
    used = int(rng.integers(0, 2 * n)) if rng.random() < 0.5 else 0
    if used:  # learned and followed something else before
        ct.imitate(T + rng.normal(), Y[::-1])
        for _ in range(used):
            ct.coupling(Y[0], np.zeros(12))
    ct.imitate(T, Y)
    case.equal(Y, Y0, "demonstration changed")
    case.note(n=n, dt=dt, lf=lf, fine=fine, T=T, used=used)
    rest = np.zeros(12)
    for i in range((n - 1) * fine):
        j, r = divmod(i, fine)
        f = r / fine
        y = np.empty(14)
        for a, p, w in ((0, left, wl), (7, right, wr)):
            x = (j + f) / (n - 1)
            y[a:a + 3] = p[:3] + x * w[:3]
            y[a + 3:a + 7] = ref.qmul(ref.qexp(x * w[3:]), p[3:])
        for c in ct.coupling(y, rest):
            tol = 1e-6 if r == 0 else 20.0 / n ** 2
            case.close(c, 0 * c, tol, "no coupling on the demonstration"
                       + ("" if r == 0 else " between samples"), scale=30.0,
                       step=i)
    case.seen(Y)
    case.event("poses_checked", (n - 1) * fine)
    # offset
    ct = CouplingTermDualCartesianTrajectory(
        offset=np.r_[rng.normal(size=3), np.zeros(4)], lf=lf, dt=dt,
        verbose=0)
    ct.imitate(T, Y)
    y = np.copy(Y[0])
    off = np.r_[ct.offset[:3], 1.0, 0.0, 0.0, 0.0]
    r = relative(y[:7], y[7:])
    r[:3] += off[:3]
    y[7:] = compose(y[:7], r)
    for c in ct.coupling(y, rest):
        case.close(c, 0 * c, 1e-6, "offset of relative position", scale=30.0)


GROUPS = [
    Group("vector_terms", vector_terms, 450, 4500),
    Group("pose_term", pose_term, 300, 3000),
    Group("coupled_vectors", coupled_vectors, 180, 1800),
    Group("coupled_poses", coupled_poses, 48, 480),
    Group("trajectory_term", trajectory_term, 100, 1000),
]
