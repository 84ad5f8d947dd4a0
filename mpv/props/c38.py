"""3D shapes show the data they are given."""
import numpy as np

from movement_primitives import visualization as vis
from movement_primitives.promp import ProMP

from .. import kinds, ref
from ..core import Group

PROPERTY = "C38"
TECHNIQUE = ("runtime reference monitors on ellipsoids and a recording "
             "stand-in for the figure that point clouds are added to")
RULE = ("Random means, covariances of any rank and scale, point clouds, "
        "colors and factors; frames and radii are compared with the "
        "covariance, points and colors are read back from the geometry that "
        "reached the figure, key events are replayed on a stand-in.")
ASSUMPTIONS = ["no window is opened, geometries are recorded"]


def rotation(rng):
    return ref.qmat(kinds.quat(rng))


def covariance(rng):
    kind = str(rng.choice(["full", "diagonal", "sphere", "line", "plane",
                           "zero", "promp"], p=[
                               0.35, 0.1, 0.1, 0.1, 0.1, 0.05, 0.2]))
    if kind == "promp":  # as the tool is used: one time of a distribution
        p = ProMP(3, int(rng.integers(3, 9)))
        A = rng.normal(size=(p.n_weights, p.n_weights))
        p.from_weight_distribution(rng.normal(size=p.n_weights), A.dot(A.T))
        T = np.linspace(0, 1, 11)
        C, i = p.cov_trajectory(T), int(rng.integers(11))
        C = C[i::11][:, i::11]
        return kind, 0.5 * (C + C.T)
    r = np.exp(rng.normal(size=3)) * kinds.logu(rng, 1e-3, 1e3)
    if kind == "sphere":
        r[:] = r[0]
    elif kind == "line":
        r[:2] = 0.0
    elif kind == "plane":
        r[0] = 0.0
    elif kind == "zero":
        r[:] = 0.0
    if kind == "diagonal":
        return kind, np.diag(rng.permutation(r) ** 2)
    R = rotation(rng)
    C = (R * r ** 2).dot(R.T)
    return kind, 0.5 * (C + C.T)


def ellipsoid(case, mean, cov):
    a, b = np.copy(mean), np.copy(cov)
    H, r = vis.to_ellipsoid(a, b)
    case.equal(a, mean, "mean modified")
    case.equal(b, cov, "covariance modified")
    H, r = np.asarray(H), np.asarray(r)
    case.check(H.shape == (4, 4) and r.shape == (3,), "shapes",
               H=H.shape, r=r.shape)
    s = max(np.max(np.abs(cov)), 1e-300)
    R = H[:3, :3]
    case.close(R.dot(R.T), np.eye(3), 1e-9, "axes are perpendicular",
               scale=1.0)
    case.close(np.linalg.det(R), 1.0, 1e-9, "axes are right-handed",
               scale=1.0)
    case.close(H[3], [0.0, 0.0, 0.0, 1.0], 1e-12, "last row", scale=1.0)
    case.close(H[:3, 3], mean, 1e-12, "centered at the mean",
               scale=np.max(np.abs(mean)) + 1e-300)
    case.check(np.all(np.isfinite(r)) and np.all(r >= 0.0), "radii", r=r)
    case.close((R * r ** 2).dot(R.T), cov, 1e-9,
               "radii along the axes are standard deviations", scale=s)
    case.event("ellipsoids")
    return R, r, s


def ellipsoids(case):
    rng = case.rng
    kind, cov = covariance(rng)
    mean = rng.normal(size=3) * kinds.logu(rng, 1e-2, 1e2)
    case.note(kind=kind, mean=mean, cov=cov)
    R, r, s = ellipsoid(case, mean, cov)
    case.seen(r)
    if r.min() > 1e-3 * r.max() and r.max() > 0.0:
        # points on the surface are equally probable
        u = rng.normal(size=(20, 3))
        u /= np.linalg.norm(u, axis=1)[:, np.newaxis]
        X = (u * r).dot(R.T)
        d = np.einsum("ni,ni->n", X, np.linalg.solve(cov, X.T).T)
        case.close(d, np.ones(20), 1e-6, "equiprobable surface", scale=1.0)
    # turned and scaled distributions
    Q, g = rotation(rng), kinds.logu(rng, 0.1, 10.0)
    C = g ** 2 * Q.dot(cov).dot(Q.T)
    _, r2, _ = ellipsoid(case, g * Q.dot(mean), 0.5 * (C + C.T))
    case.close(np.sort(r2) ** 2, np.sort(g * r) ** 2, 1e-9, "turned radii",
               scale=g ** 2 * s)
    # lists are fine
    H, r3 = vis.to_ellipsoid(mean.tolist(), cov.tolist())
    case.equal(np.asarray(r3), r, "radii of lists")


class Figure:
    def __init__(self):
        self.geometries = []

    def add_geometry(self, geometry, *args, **kwargs):
        self.geometries.append(geometry)


def clouds(case):
    rng = case.rng
    n = int(rng.choice([0, 1, 2, 5, 17, 100, 1000]))
    k = int(rng.choice([1, 1, 2, 3, 7, 50]))
    P = rng.normal(size=(n, 3)) * kinds.logu(rng, 1e-2, 1e2)
    color = rng.choice([0.0, 1.0, 0.3, 0.75], size=3)
    case.note(n=n, k=k, color=color)
    given = P.tolist() if rng.random() < 0.3 and n else np.copy(P)
    c = color.tolist() if rng.random() < 0.5 else np.copy(color)
    fig = Figure()
    kw = {} if k == 1 and rng.random() < 0.5 else {"uniform_down_sample": k}
    pcl = vis.plot_pointcloud(fig, given, c, **kw)
    case.event("clouds")
    case.check(len(fig.geometries) == 1, "added once", n=len(fig.geometries))
    case.check(fig.geometries[-1] is pcl, "result is the added geometry")
    X, C = np.asarray(pcl.points), np.asarray(pcl.colors)
    E = P[::k]
    case.check(len(X) == len(E), "number of points", got=len(X),
               expected=len(E))
    case.equal(X.reshape(-1, 3), E, "points in order")
    case.equal(C.reshape(-1, 3), np.tile(color, (len(E), 1)), "colors")
    case.seen(X)
    case.equal(np.array(given).reshape(-1, 3), P, "points modified")
    # the geometry has its own points
    if isinstance(given, np.ndarray):
        given[:] = 1e9
    case.equal(np.asarray(pcl.points).reshape(-1, 3), E, "independent points")
    # a second cloud is added to the first one
    vis.plot_pointcloud(fig, -P, color)
    case.check(len(fig.geometries) == 2 and fig.geometries[0] is pcl,
               "second cloud")


class Window:
    def __init__(self, shown):
        self.shown = list(shown)

    def add_geometry(self, geometry, *args, **kwargs):
        if geometry not in self.shown:
            self.shown.append(geometry)

    def remove_geometry(self, geometry, *args, **kwargs):
        if geometry in self.shown:
            self.shown.remove(geometry)


def keys(case):
    """Pressing and releasing a key shows, with a modifier it hides."""
    rng = case.rng
    window = Window(["a", "b", "c"])
    toggles = {g: vis.ToggleGeometry(Figure(), g) for g in "abc"}
    visible = dict.fromkeys("abc", True)
    events = [(str(rng.choice(list("abc"))), int(rng.choice([0, 0, 1, 2, 4])))
              for _ in range(int(rng.integers(3, 30)))]
    case.note(events=events)
    case.seen(np.array([m for _, m in events], dtype=float))
    for g, modifier in events:
        for action in (1, 0):
            done = toggles[g](window, action, modifier)
            case.check(bool(done), "geometry is updated")
        visible[g] = not modifier
        case.event("keys")
        case.check(sorted(window.shown) == [k for k in "abc" if visible[k]],
                   "visible geometries", got=sorted(window.shown),
                   expected=visible)


GROUPS = [
    Group("ellipsoids", ellipsoids, 400, 6000),
    Group("clouds", clouds, 150, 2000),
    Group("keys", keys, 60, 600),
]
