"""Reference models, independent of the code under test."""
import numpy as np
from scipy.integrate import solve_ivp

ALPHA_Z = -np.log(0.01)


# quaternions (scalar first, Hamilton) ---------------------------------------

def qmul(p, q):
    p = np.asarray(p, dtype=float)
    q = np.asarray(q, dtype=float)
    pw, pv = p[..., :1], p[..., 1:]
    qw, qv = q[..., :1], q[..., 1:]
    w = pw * qw - np.sum(pv * qv, axis=-1, keepdims=True)
    v = pw * qv + qw * pv + np.cross(pv, qv)
    return np.concatenate((w, v), axis=-1)


def qconj(q):
    return np.asarray(q, dtype=float) * np.array([1.0, -1.0, -1.0, -1.0])


def qlog(q):
    """Rotation vector of shortest rotation."""
    q = np.asarray(q, dtype=float)
    q = np.where(q[..., :1] < 0.0, -q, q)
    v = q[..., 1:]
    n = np.linalg.norm(v, axis=-1, keepdims=True)
    angle = 2.0 * np.arctan2(n, q[..., :1])
    return np.where(n < 1e-150, 0.0, v / np.where(n < 1e-150, 1.0, n) * angle)


def qexp(r):
    r = np.asarray(r, dtype=float)
    angle = np.linalg.norm(r, axis=-1, keepdims=True)
    s = np.where(angle < 1e-150, 0.5,
                 np.sin(0.5 * angle) / np.where(angle < 1e-150, 1.0, angle))
    return np.concatenate((np.cos(0.5 * angle), s * r), axis=-1)


def qdist(p, q):
    """Angle between orientations, insensitive to sign."""
    return np.linalg.norm(qlog(qmul(p, qconj(q))), axis=-1)


def qmat(q):
    w, x, y, z = np.asarray(q, dtype=float)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def rotmat(r):
    """Matrix exponential of a rotation vector (Rodrigues)."""
    r = np.asarray(r, dtype=float)
    angle = np.linalg.norm(r)
    K = np.array([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]])
    if angle < 1e-12:
        return np.eye(3) + K
    K = K / angle
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K @ K


# DMPs -----------------------------------------------------------------------

def phase(t, tau):
    return np.exp(-ALPHA_Z * np.asarray(t, dtype=float) / tau)


def activations(t, tau, n):
    """Normalised basis functions, shape (n,) + shape of t."""
    centers = phase(np.linspace(0.0, tau, n), tau)
    widths = np.empty(n)
    widths[:-1] = -np.log(0.8) / np.diff(centers) ** 2
    widths[-1] = widths[-2]
    z = phase(t, tau)
    psi = np.exp(-np.multiply.outer(
        np.ones(n), 0 * z) - widths.reshape((-1,) + (1,) * np.ndim(z))
        * (z - centers.reshape((-1,) + (1,) * np.ndim(z))) ** 2)
    return psi / psi.sum(axis=0)


def forcing(t, tau, weights):
    """weights: (n_dims, n_weights) -> (n_dims,) for scalar t."""
    weights = np.asarray(weights, dtype=float)
    return weights @ (phase(t, tau) * activations(t, tau, weights.shape[1]))


def quintic(T, y0, yd0, ydd0, y1, yd1, ydd1):
    """Coefficients (6, n_dims) of a polynomial in s = t / T."""
    A = np.array([[1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0], [0, 0, 2, 0, 0, 0],
                  [1, 1, 1, 1, 1, 1], [0, 1, 2, 3, 4, 5],
                  [0, 0, 2, 6, 12, 20]], dtype=float)
    B = np.vstack((y0, np.multiply(yd0, T), np.multiply(ydd0, T * T),
                   y1, np.multiply(yd1, T), np.multiply(ydd1, T * T)))
    return np.linalg.solve(A, B)


def quintic_at(c, t, T):
    s = t / T
    p = np.array([1, s, s ** 2, s ** 3, s ** 4, s ** 5])
    v = np.array([0, 1, 2 * s, 3 * s ** 2, 4 * s ** 3, 5 * s ** 4]) / T
    a = np.array([0, 0, 2, 6 * s, 12 * s ** 2, 20 * s ** 3]) / T ** 2
    return p @ c, v @ c, a @ c


def solve(fun, x0, T, rtol=1e-10, atol=1e-12, max_step=np.inf):
    sol = solve_ivp(fun, (T[0], T[-1]), x0, method="DOP853", t_eval=T,
                    rtol=rtol, atol=atol, max_step=max_step)
    assert sol.success, sol.message
    return sol.y.T


def dmp_ode(T, tau, alpha, beta, y0, yd0, g, weights, smooth=False,
            coupling=None, scale=1.0, origin=None):
    """Solution of the documented transformation system, (Y, Yd).

    origin: start of the movement if it is not y0
    """
    n = len(y0)
    origin = y0 if origin is None else origin

    def fun(t, x):
        y, yd = x[:n], x[n:]
        a = beta * (g - y) - tau * yd
        if smooth:
            a = a - beta * (g - origin) * phase(t, tau)
        ydd = alpha * a + forcing(t, tau, weights)
        if coupling is not None:
            ydd = ydd + coupling(y, yd)
        return np.concatenate((yd, ydd / tau ** 2))

    X = solve(fun, np.concatenate((y0, yd0)), T, atol=1e-11 * scale,
              max_step=tau / 20)
    return X[:, :n], X[:, n:]


def quaternion_dmp_ode(T, tau, alpha, beta, q0, w0, g, weights, smooth=False,
                       coupling=None, origin=None):
    """Orientation, angular velocity in the world frame."""
    d0 = qlog(qmul(g, qconj(q0 if origin is None else origin)))

    def fun(t, x):
        q, w = x[:4], x[4:]
        qn = q / np.linalg.norm(q)
        a = beta * qlog(qmul(g, qconj(qn))) - tau * w
        if smooth:
            a = a - beta * d0 * phase(t, tau)
        wd = alpha * a + forcing(t, tau, weights)
        if coupling is not None:
            wd = wd + coupling(qn, w)
        qd = 0.5 * qmul(np.concatenate(([0.0], w)), q)
        return np.concatenate((qd, wd / tau ** 2))

    X = solve(fun, np.concatenate((q0, w0)), T, atol=1e-11,
              max_step=tau / 20)
    Q = X[:, :4] / np.linalg.norm(X[:, :4], axis=1)[:, np.newaxis]
    return Q, X[:, 4:]


def final_velocity_ode(T, tau, alpha, beta, start, goal, weights,
                       coupling=None, scale=1.0, state=None):
    """start, goal: (y, yd, ydd), state: (y, yd) at T[0] if not the start"""
    n = len(start[0])
    c = quintic(tau, start[0], start[1], start[2], goal[0], goal[1], goal[2])

    def fun(t, x):
        y, yd = x[:n], x[n:]
        g, gd, gdd = quintic_at(c, t, tau)
        a = alpha * (beta * (g - y) + tau * (gd - yd)) + forcing(
            t, tau, weights)
        if coupling is not None:
            a = a + coupling(y, yd)
        return np.concatenate((yd, a / tau ** 2 + gdd))

    state = start[:2] if state is None else state
    X = solve(fun, np.concatenate(state), T,
              atol=1e-11 * scale, max_step=tau / 20)
    return X[:, :n], X[:, n:]


def state_following_ode(T, tau, alpha, beta, y0, yd0, viapoints, h, scale=1.0):
    """h(t): weights of the via points."""
    n = len(y0)
    ht = 0.5 * tau

    def fun(t, x):
        y, yd = x[:n], x[n:]
        w = h(t)
        a = alpha * (beta * (w @ viapoints - y) - ht * yd) / ht ** 2
        return np.concatenate((yd, a))

    X = solve(fun, np.concatenate((y0, yd0)), T, atol=1e-11 * scale,
              max_step=tau / 40)
    return X[:, :n], X[:, n:]


def oscillator(t, k, c, x0, v0):
    """Solution of x'' = -k x - c x' for scalar or vector x0, v0."""
    t = np.asarray(t, dtype=float)[:, np.newaxis]
    x0 = np.atleast_1d(np.asarray(x0, dtype=float))
    v0 = np.atleast_1d(np.asarray(v0, dtype=float))
    k = np.broadcast_to(np.asarray(k, dtype=float), x0.shape)
    c = np.broadcast_to(np.asarray(c, dtype=float), x0.shape)
    d = np.sqrt((c * c / 4 - k).astype(complex))
    d = np.where(np.abs(d) < 1e-7 * np.sqrt(k), 1e-7 * np.sqrt(k), d)
    l1, l2 = -c / 2 + d, -c / 2 - d
    b = (v0 - l1 * x0) / (l2 - l1)
    a = x0 - b
    x = a * np.exp(l1 * t) + b * np.exp(l2 * t)
    v = l1 * a * np.exp(l1 * t) + l2 * b * np.exp(l2 * t)
    return x.real, v.real
