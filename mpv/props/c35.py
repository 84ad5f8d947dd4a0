"""Plots show the data they are given."""
import matplotlib

matplotlib.use("Agg")

import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import numpy as np

from movement_primitives.plot import (
    plot_distribution_in_rows, plot_trajectory_in_rows)

from .. import kinds
from ..core import Group

PROPERTY = "C35"
TECHNIQUE = ("runtime monitor of the figure: artists created by each call "
             "are read back and compared with the data")
RULE = ("Random data, times, layouts, titles, labels and styles; lines, "
        "areas, limits and texts of the figure are compared with what was "
        "passed. A second call draws into the same axes.")
ASSUMPTIONS = ["figures are not shown (Agg backend)",
               "times increase"]


def settings(rng, n_dims):
    kw = {}
    h, w = n_dims, 1
    if rng.random() < 0.6:
        h = int(rng.integers(1, n_dims + 1))
        w = -(-n_dims // h)
        kw["subplot_shape"] = (h, w)
        if rng.random() < 0.5:
            kw["transpose"] = bool(rng.random() < 0.8)
    if rng.random() < 0.6:
        n = int(rng.integers(0, n_dims + 1))
        kw["axis_titles"] = ["title %d" % (i + 7) for i in range(n)]
    if rng.random() < 0.6:
        kw["label"] = "data"
    return kw, h, w


def style(rng):
    kw = {}
    if rng.random() < 0.6:
        colors = ["red", "k", "#4C72B0", (0.1, 0.2, 0.3), "C3"]
        kw["color"] = colors[rng.integers(len(colors))]
    if rng.random() < 0.3:
        kw["alpha"] = float(rng.uniform(0.1, 0.9))
    return kw


def data(rng):
    n_dims, n_steps = int(rng.integers(1, 9)), int(rng.integers(2, 60))
    scale = kinds.logu(rng, 0.01, 100.0)
    Y = rng.normal(size=(n_steps, n_dims)) * scale
    t = None
    if rng.random() < 0.7:
        t = rng.normal() + np.cumsum(rng.uniform(0.01, 0.2, size=n_steps))
        if rng.random() < 0.3:
            t = t.tolist()
    return Y, t


def times(t, n):
    return np.arange(n, dtype=float) if t is None else np.asarray(t)


def check_line(case, line, x, y, what):
    case.close(line.get_xdata(), x, 1e-12, what + ": times")
    case.close(line.get_ydata(), y, 1e-12, what + ": values")


def band(case, area, x):
    """Lower and upper end of an area at all times."""
    v = np.vstack([p.vertices for p in area.get_paths()])
    s = np.max(np.abs(x)) + np.ptp(x)
    case.close([v[:, 0].min(), v[:, 0].max()], [x[0], x[-1]], 1e-12,
               "range of band", scale=s)
    got = np.empty((2, len(x)))
    for i, xi in enumerate(x):
        y = v[np.abs(v[:, 0] - xi) < 1e-12 * s, 1]
        case.check(len(y) >= 2, "points of band", time=xi)
        got[:, i] = y.min(), y.max()
    return got


def check_layout(case, axes, h, w, kw, t, x):
    transpose = kw.get("transpose", False)
    titles = kw.get("axis_titles", [])
    case.check(all(title.startswith("title ") for title in titles),
               "given titles changed", titles=titles)
    for i, ax in enumerate(axes):
        s = ax.get_subplotspec()
        case.check(s.get_gridspec().get_geometry() == (h, w), "arrangement",
                   got=s.get_gridspec().get_geometry(), expected=(h, w))
        place = s.rowspan.start, s.colspan.start
        expected = (i % h, i // h) if transpose else (i // w, i % w)
        case.check(place == expected, "place of dimension %d" % i, got=place,
                   expected=expected)
        title = titles[i] if i < len(titles) else "Dimension #%d" % i
        case.check(ax.get_title() == title, "title", got=ax.get_title(),
                   expected=title)
        if expected[0] == h - 1:
            label = "Step" if t is None else "Time [s]"
            case.check(ax.get_xlabel() == label, "label of time axis",
                       got=ax.get_xlabel(), expected=label)
        else:
            case.check(ax.get_xlabel() == "", "label in the bottom row only")
        case.close(ax.get_xlim(), [x[0], x[-1]], 1e-12, "shown times",
                   scale=np.max(np.abs(x)) + 1e-9)


def same_color(a, b):
    return np.allclose(mcolors.to_rgb(a), mcolors.to_rgb(b))


def new_artists(axes, before):
    return [([a for a in ax.lines if a not in b],
             [c for c in ax.collections if c not in b])
            for ax, b in zip(axes, before)]


def artists(axes):
    return [list(ax.lines) + list(ax.collections) for ax in axes]


def label_of(artist):
    label = artist.get_label()
    return "" if label is None or str(label).startswith("_") else label


def drawn(case, draw, n_dims, axes=None):
    before = [[]] * n_dims if axes is None else artists(axes)
    shown = None if axes is None else [
        (ax.get_xlim(), ax.get_title(), ax.get_xlabel()) for ax in axes]
    got = draw(axes)
    case.check(len(got) == n_dims, "one axis per dimension", got=len(got))
    case.check(len(set(map(id, got))) == n_dims, "axes differ")
    if axes is not None:
        case.check(all(a is b for a, b in zip(got, axes)), "same axes")
        after = artists(axes)
        for b, a, ax, s in zip(before, after, axes, shown):
            case.check(all(any(o is x for x in a) for o in b),
                       "earlier drawings are kept")
            case.check((ax.get_title(), ax.get_xlabel()) == s[1:],
                       "titles are kept")
    case.event("plots")
    return got, new_artists(got, before)


def check_trajectory(case, new, Y, x, kw, extra):
    for i, (lines, areas) in enumerate(new):
        case.check(len(lines) == 1 and not areas, "one line",
                   lines=len(lines), areas=len(areas))
        check_line(case, lines[0], x, Y[:, i], "line")
        case.check(label_of(lines[0]) == kw.get("label", ""), "label",
                   got=lines[0].get_label())
        if "color" in extra:
            case.check(same_color(lines[0].get_color(), extra["color"]),
                       "color")
        if "alpha" in extra:
            case.check(lines[0].get_alpha() == extra["alpha"], "alpha")


def check_distribution(case, new, M, S, x, factors, fill, kw, extra):
    for i, (lines, areas) in enumerate(new):
        n = len(factors)
        case.check(len(lines) == (1 if fill else 1 + 2 * n)
                   and len(areas) == (n if fill else 0), "number of artists",
                   lines=len(lines), areas=len(areas))
        labels = [label_of(a) for a in lines + areas]
        labels = [a for a in labels if a]
        expected = [kw["label"]] if "label" in kw and n else []
        case.check(labels == expected, "label is shown once", got=labels)
        # the order of drawing does not matter
        f = np.sort(factors)[:, np.newaxis]
        low, high = M[:, i] - f * S[:, i], M[:, i] + f * S[:, i]
        lines.sort(key=lambda a: np.sum(a.get_ydata()))
        if fill:
            check_line(case, lines[0], x, M[:, i], "mean")
            bands = [band(case, a, x) for a in areas]
            bands.sort(key=lambda b: np.sum(b[1] - b[0]))
            case.close(bands, np.stack((low, high), axis=1), 1e-12, "bands",
                       scale=np.max(np.abs((low, high))))
        else:
            for j, y in enumerate(low[::-1]):
                check_line(case, lines[j], x, y, "lower line")
            check_line(case, lines[n], x, M[:, i], "mean")
            for j, y in enumerate(high):
                check_line(case, lines[n + 1 + j], x, y, "upper line")
            for a in lines[:n] + lines[n + 1:]:
                case.check(a.get_linestyle() == "--", "dashed lines")
        if "color" in extra:
            for a in lines:
                case.check(same_color(a.get_color(), extra["color"]),
                           "color of lines")
            for a in areas:
                case.check(same_color(a.get_facecolor()[0],
                                      extra["color"]), "color of areas")


def trajectory(case):
    rng = case.rng
    Y, t = data(rng)
    n_steps, n_dims = Y.shape
    kw, h, w = settings(rng, n_dims)
    extra = style(rng)
    case.note(n_steps=n_steps, n_dims=n_dims, times=t is not None, kw=kw,
              extra=extra)
    x = times(t, n_steps)
    before = np.copy(Y), None if t is None else np.copy(t)
    plt.figure()
    try:
        axes, new = drawn(case, lambda a: plot_trajectory_in_rows(
            Y, t, axes=a, **kw, **extra), n_dims)
        check_trajectory(case, new, Y, x, kw, extra)
        check_layout(case, axes, h, w, kw, t, x)
        # again: other data in the same axes
        Z, t2 = data(rng)
        Z = np.resize(Z, (len(Z), n_dims))
        kw2 = {"label": "other"} if rng.random() < 0.5 else {}
        _, new = drawn(case, lambda a: plot_trajectory_in_rows(
            Z, t2, axes=a, **kw2), n_dims, axes)
        check_trajectory(case, new, Z, times(t2, len(Z)), kw2, {})
    finally:
        plt.close("all")
    case.equal(Y, before[0], "data is not changed")
    if t is not None:
        case.equal(t, before[1], "times are not changed")


def distribution(case):
    rng = case.rng
    M, t = data(rng)
    n_steps, n_dims = M.shape
    S = np.abs(rng.normal(size=M.shape)) + 0.1
    kw, h, w = settings(rng, n_dims)
    extra = style(rng)
    fill = bool(rng.random() < 0.6)
    options = {"fill_between": fill} if not fill or rng.random() < 0.5 else {}
    factors = (1, 2, 3)
    if rng.random() < 0.6:
        factors = tuple(np.round(
            rng.uniform(0.2, 4.0, size=rng.integers(1, 5)), 2).tolist())
        options["std_factors"] = factors
    case.note(n_steps=n_steps, n_dims=n_dims, times=t is not None, kw=kw,
              extra=extra, options=options)
    x = times(t, n_steps)
    before = np.copy(M), np.copy(S)
    plt.figure()
    try:
        axes, new = drawn(case, lambda a: plot_distribution_in_rows(
            M, S, t, axes=a, **options, **kw, **extra), n_dims)
        check_distribution(case, new, M, S, x, factors, fill, kw, extra)
        check_layout(case, axes, h, w, kw, t, x)
        # a trajectory in the same axes
        Y = rng.normal(size=M.shape)
        _, new = drawn(case, lambda a: plot_trajectory_in_rows(
            Y, t, axes=a, label="more"), n_dims, axes)
        check_trajectory(case, new, Y, x, {"label": "more"}, {})
        _, new = drawn(case, lambda a: plot_distribution_in_rows(
            Y, S, t, axes=a, **options), n_dims, axes)
        check_distribution(case, new, Y, S, x, factors, fill, {}, {})
    finally:
        plt.close("all")
    case.equal(M, before[0], "mean is not changed")
    case.equal(S, before[1], "standard deviation is not changed")


GROUPS = [
    Group("trajectory", trajectory, 60, 800),
    Group("distribution", distribution, 60, 800),
]
