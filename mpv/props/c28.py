"""Phase and forcing term."""
import numpy as np

from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, CartesianDMP, DualCartesianDMP,
    canonical_system_alpha, phase)
from movement_primitives.dmp._forcing_term import ForcingTerm

from .. import kinds, ref
from ..core import Group

PROPERTY = "C28"
TECHNIQUE = ("runtime invariant and reference monitors on phase values, "
             "activations, design matrices and forces")
RULE = ("Random start and end times, final phases, numbers of basis "
        "functions, overlaps and weights; values are compared with closed "
        "forms and with each other after shifts of time and changes of units.")
ASSUMPTIONS = ["at least two basis functions", "final phases below one"]


def span(rng):
    start = 0.0 if rng.random() < 0.3 else float(rng.normal() * 5)
    tau = kinds.exec_time(rng) if rng.random() < 0.5 \
        else kinds.logu(rng, 1e-3, 1e3)
    return start, start + tau, tau


def expected(u, alpha, n, overlap):
    """Activations at relative times u (0 to 1 during the movement)."""
    u = np.atleast_1d(u)
    z = np.exp(-alpha * u)
    c = np.exp(-alpha * np.linspace(0.0, 1.0, n))
    d = np.diff(c)
    w = -np.log(overlap) / np.append(d, d[-1]) ** 2
    e = -w[:, np.newaxis] * (z - c[:, np.newaxis]) ** 2
    a = np.exp(e - np.max(e, axis=0))
    return z, a / a.sum(axis=0)


def phases(case):
    rng = case.rng
    start, end, tau = span(rng)
    final = float(rng.choice([0.01, 0.01, 0.5, 0.1, 1e-6, 0.99])) \
        if rng.random() < 0.7 else float(rng.uniform(0.001, 0.9))
    case.note(start=start, end=end, final=final)
    alpha = canonical_system_alpha(final, end, start)
    case.close(phase(start, alpha, end, start), 1.0, 1e-9, "phase at start",
               scale=1.0)
    # rounding of the times themselves
    eps = 1e-12 + 1e-14 * (abs(start) + abs(end)) / tau
    case.close(phase(end, alpha, end, start), final, 1e-9 + 50 * eps,
               "phase at end", scale=final)
    n = int(rng.integers(5, 100))
    T = start + tau * np.sort(rng.uniform(-0.2, 3.0, size=n))
    Z = np.asarray(phase(T, alpha, end, start))
    case.check(Z.shape == (n,), "one phase per time", shape=Z.shape)
    case.check(np.all(Z > 0.0), "phase is positive")
    d = np.diff(T) > 1e-9 * tau
    case.check(np.all(np.diff(Z)[d] < 0.0), "phase decreases")
    E = final ** ((T - start) / tau)
    case.close(Z / E, np.ones(n), 1e-8 + 100 * eps, "exponential decay",
               scale=1.0)
    # equal ratios in equal times
    h = tau * rng.uniform(0.01, 0.5)
    r = np.asarray(phase(T + h, alpha, end, start)) / Z
    case.close(r, np.full(n, r[0]), 1e-8 + 100 * eps,
               "equal decay in equal times", scale=1.0)
    for bad in (0.0, -0.1):
        case.raises(ValueError, lambda: canonical_system_alpha(
            bad, end, start), "final phase")
    for other in (start, start - tau):
        case.raises(ValueError, lambda: canonical_system_alpha(
            final, other, start), "end before start")


def basis(case):
    rng = case.rng
    start, end, tau = span(rng)
    n = int(rng.choice([2, 3, 5, 10, 17, 50, 100, 300]))
    dims = int(rng.integers(1, 6))
    overlap = float(rng.choice([0.8, 0.8, 0.5, 0.95, 0.1]))
    final = float(rng.choice([0.01, 0.01, 0.1, 1e-3, 0.3]))
    case.note(start=start, end=end, n=n, dims=dims, overlap=overlap,
              final=final)
    alpha = canonical_system_alpha(final, end, start)
    f = ForcingTerm(dims, n, end, start, overlap, alpha)
    case.check(tuple(f.shape) == (dims, n), "shape of weights")
    case.check(np.shape(f.weights_) == (dims, n), "weights")
    eps = 1e-13 * (abs(start) + abs(end)) / tau * n ** 2
    tol = 1e-7 + 10 * eps
    T = np.linspace(start, end, int(rng.integers(3, 60)))
    u = (T - start) / tau
    z, A = expected(u, alpha, n, overlap)
    X = np.asarray(f.design_matrix(T))
    case.check(X.shape == (n, len(T)), "shape of design matrix",
               shape=X.shape)
    case.close(X, z * A, tol, "design matrix", scale=1.0)
    case.close(X.sum(axis=0), z, tol, "activations sum to one", scale=1.0)
    case.check(np.all(X >= 0.0), "activations are not negative")
    # activations one by one through the weights
    G = np.array([activation(f, i, T) for i in range(n)])
    case.close(G, z * A, tol, "forces of single basis functions", scale=1.0)
    # the last basis function stays after the end
    L = end + tau * np.array([0.0, 0.3, 1.0, 4.0])
    z, A = expected((L - start) / tau, alpha, n, overlap)
    f.weights_[:, :] = 1.0
    case.close(np.asarray(f(L)), np.broadcast_to(z, (dims, len(L))), tol,
               "forces after the end", scale=1.0)
    case.close(activation(f, n - 1, L), z * A[-1], tol,
               "last basis function after the end", scale=1.0)
    # each basis function is the strongest around its own time
    C = np.linspace(start, end, n)
    S = np.array([activation(f, i, C) for i in range(n)])
    case.check(np.all(np.argmax(S, axis=0) == np.arange(n)),
               "basis functions cover the whole movement",
               strongest=np.argmax(S, axis=0))
    if overlap < 0.9:
        k = np.arange(n - 1)
        case.close(S[k, k + 1] / S[k + 1, k + 1], np.full(n - 1, overlap),
                   1e-4 + 100 * eps, "overlap of neighbours", scale=1.0)


def activation(f, i, T):
    f.weights_[:, :] = 0.0
    f.weights_[:, i] = 1.0
    F = np.asarray(f(T))
    if not np.array_equal(F, np.broadcast_to(F[0], F.shape)):
        raise ValueError("dimensions differ")
    return F[0]


def forces(case):
    rng = case.rng
    start, end, tau = span(rng)
    n, dims = int(rng.choice([2, 5, 10, 30, 400])), int(rng.integers(1, 6))
    alpha = canonical_system_alpha(0.01, end, start)
    f = ForcingTerm(dims, n, end, start, 0.8, alpha)
    W1, W2 = rng.normal(size=(2, dims, n)) * kinds.logu(rng, 1e-3, 1e3)
    a, b = rng.normal(size=2)
    T = start + tau * rng.uniform(0.0, 2.0, size=12)
    case.note(start=start, end=end, n=n, dims=dims)
    s = np.max(np.abs(W1)) + np.max(np.abs(W2))
    tol = 1e-7 + 1e-12 * (abs(start) + abs(end)) / tau * n ** 2

    def force(W, t, term=f):
        term.weights_[:, :] = W
        return np.asarray(term(t))

    F1, F2 = force(W1, T), force(W2, T)
    case.check(F1.shape == (dims, len(T)), "one force per dimension and time",
               shape=F1.shape)
    z, A = expected((T - start) / tau, alpha, n, 0.8)
    case.close(F1, z * (W1 @ A), tol, "forces", scale=s)
    case.close(force(a * W1 + b * W2, T), a * F1 + b * F2, 1e-9,
               "linear in the weights", scale=s * (1 + abs(a) + abs(b)))
    case.check(np.all(np.abs(F1) <= z * np.max(np.abs(W1), axis=1)[
        :, np.newaxis] * (1 + 1e-6)), "force vanishes with the phase")
    for i in range(3):
        x = force(W1, float(T[i]))
        case.close(np.ravel(x), F1[:, i], 1e-9, "single time", scale=s)
        x = np.asarray(f.forcing_term(f.phase(float(T[i]))))
        case.close(np.ravel(x), F1[:, i], 1e-9, "force of a phase", scale=s)
    # another start time and another unit
    shift = float(rng.normal() * tau)
    g = ForcingTerm(dims, n, end + shift, start + shift, 0.8,
                    canonical_system_alpha(0.01, end + shift, start + shift))
    case.close(force(W1, T + shift, g), F1, 10 * tol, "shifted time", scale=s)
    unit = kinds.logu(rng, 1e-3, 1e3)
    g = ForcingTerm(dims, n, end * unit, start * unit, 0.8,
                    canonical_system_alpha(0.01, end * unit, start * unit))
    case.close(force(W1, T * unit, g), F1, 10 * tol, "other unit of time",
               scale=s)


def of_primitives(case):
    """Forcing terms as they are used by the primitives."""
    rng = case.rng
    n = int(rng.choice([2, 3, 6, 10, 25, 60]))
    tau = kinds.exec_time(rng)
    which = case.index % 4
    case.note(which=which, n=n, tau=tau)
    if which == 0:
        obj = DMP(3, execution_time=tau, n_weights_per_dim=n)
    elif which == 1:
        obj = DMPWithFinalVelocity(3, execution_time=tau, n_weights_per_dim=n)
    elif which == 2:
        obj = CartesianDMP(execution_time=tau, n_weights_per_dim=n)
    else:
        obj = DualCartesianDMP(execution_time=tau, n_weights_per_dim=n)
    w = rng.normal(size=len(obj.get_weights()))
    obj.set_weights(w)
    if rng.random() < 0.5:  # other duration
        tau = tau * rng.uniform(0.3, 3.0)
        if hasattr(obj, "execution_time_"):
            obj.execution_time_ = tau
    names = ("forcing_term_pos", "forcing_term_rot") if which == 2 \
        else ("forcing_term",)
    if not all(hasattr(obj, name) for name in names):
        case.seen(w)  # renamed, the other kinds still cover it
        case.event("verdicts")
        return
    terms = [getattr(obj, name) for name in names]
    T = tau * np.linspace(0.0, 1.8, 30)
    F = np.vstack([np.asarray(t(T)) for t in terms])
    W = w.reshape(-1, n)
    z, A = expected(T / tau, ref.ALPHA_Z, n, 0.8)
    case.close(F, z * (W @ A), 1e-7, "forces", scale=np.max(np.abs(W)))
    case.close(F, ref.forcing(T, tau, W), 1e-7, "forces of reference",
               scale=np.max(np.abs(W)))
    if hasattr(obj, "get_execution_time_"):
        case.check(obj.get_execution_time_() == tau, "execution time")
    # the phase of the movement itself
    for t in terms:
        case.close(t.phase(0.0), 1.0, 1e-9, "phase at start", scale=1.0)
        case.close(t.phase(tau), 0.01, 1e-7, "phase at end", scale=0.01)


GROUPS = [
    Group("phases", phases, 600, 12000),
    Group("basis", basis, 500, 8000),
    Group("forces", forces, 600, 12000),
    Group("of_primitives", of_primitives, 400, 6000),
]
