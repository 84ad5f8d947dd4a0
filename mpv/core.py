"""Monitors: cases, observations, verdicts.

A property module defines groups of cases. Every case is generated from
(seed, property, group, index) alone, drives the code in /repo and hands what
it observed to the monitors ``check`` and ``close``. Exceptions of the code
under test within a valid case are violations as well.
"""
import contextlib
import hashlib
import json
import os
import signal
import traceback
import zlib
from collections import Counter

import numpy as np

CASE_LIMIT = 240  # seconds, only guards against endless loops


class Violated(Exception):
    pass


class NotTerminating(Exception):
    pass


class Group:
    def __init__(self, name, fn, quick, thorough, limit=CASE_LIMIT):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.limit = limit

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


def case_rng(seed, prop, group, index):
    return np.random.default_rng(
        [seed, zlib.crc32(prop.encode()), zlib.crc32(group.encode()), index])


def plain(x):
    """Converts anything to something short that JSON can store."""
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return {"shape": list(x.shape), "min": plain(np.nanmin(x)),
                    "max": plain(np.nanmax(x))} if x.dtype.kind in "fiu" \
                else str(x.shape)
        return [plain(v) for v in x.tolist()]
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else str(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (int, bool, str)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in list(x)[:40]]
    return repr(x)[:200]


class Case:
    def __init__(self, prop, group, index, seed, tier="quick"):
        self.prop = prop
        self.group = group
        self.index = index
        self.seed = seed
        self.tier = tier
        self.rng = case_rng(seed, prop, group, index)
        self.params = {}
        self.events = Counter()
        self.hash = hashlib.sha1()
        self.nontrivial = False
        self.violations = []
        self.worst = {}

    # workload ---------------------------------------------------------------

    def note(self, **kw):
        self.params.update(kw)

    def event(self, name, n=1):
        self.events[name] += n

    def seen(self, value):
        """Adds an observed value to the fingerprint of this case."""
        a = np.asarray(value)
        if a.dtype.kind in "fiub":
            a = np.ascontiguousarray(a, dtype=float)
            self.hash.update(a.tobytes())
            self.events["values_observed"] += a.size
            if a.size > 1 and not np.all(a == a.flat[0]):
                self.nontrivial = True
            elif a.size == 1 and a.flat[0] != 0.0:
                self.nontrivial = True
        else:
            self.hash.update(repr(value).encode())

    # monitors ---------------------------------------------------------------

    def fail(self, what, **detail):
        self.violations.append(
            {"group": self.group, "index": self.index, "what": what,
             "detail": plain(detail)})
        raise Violated(what)

    def check(self, ok, what, **detail):
        self.events["verdicts"] += 1
        if not bool(ok):
            self.fail(what, **detail)

    def close(self, a, b, tol, what, scale=None, **detail):
        """Monitors equality of two observations.

        tol is relative to scale (default: largest magnitude of either).
        """
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.events["verdicts"] += 1
        self.seen(a)
        if a.shape != b.shape:
            self.fail(what + ": shapes differ", a=a.shape, b=b.shape, **detail)
        if a.size == 0:
            return
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not (fa.all() and fb.all()):
            self.fail(what + ": not finite", a=a, b=b, **detail)
        if scale is None:
            scale = max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-300)
        d = np.abs(a - b) / np.asarray(scale, dtype=float)
        i = np.unravel_index(np.argmax(d), d.shape)
        w = float(d[i]) / tol if tol > 0 else float(d[i] > 0) * 1e300
        if w > self.worst.get(what, (0.0,))[0]:
            self.worst[what] = (w,)
        if not d[i] <= tol:
            self.fail(what, at=[int(k) for k in i], got=a[i], expected=b[i],
                      deviation=float(d[i]), tolerance=tol,
                      scale=plain(scale), **detail)

    def equal(self, a, b, what, **detail):
        self.close(a, b, 0.0, what, scale=1.0, **detail)

    def raises(self, exceptions, fn, what, match=None):
        """The call is rejected with one of the exceptions."""
        self.events["verdicts"] += 1
        try:
            result = fn()
        except exceptions as e:
            self.events["rejections"] += 1
            if match is not None and match.lower() not in str(e).lower():
                self.fail(what + ": message does not name the problem",
                          message=str(e), expected=match)
            return e
        self.fail(what + ": not rejected", result=repr(result)[:200])


def run_case(fn, case, limit):
    def on_alarm(signum, frame):
        raise NotTerminating("no result after %d s" % limit)

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        with np.errstate(all="ignore"):
            fn(case)
    except Violated:
        pass
    except Exception as e:  # raised by the code under test
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/mpv/" not in f.filename] or tb
        case.violations.append(
            {"group": case.group, "index": case.index,
             "what": "exception %s" % type(e).__name__,
             "detail": {"message": str(e)[:500],
                        "where": "%s:%d" % (where[-1].filename,
                                            where[-1].lineno),
                        "traceback": traceback.format_exc()[-3000:]}})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return case


@contextlib.contextmanager
def silence():
    """Messages of verbose code are not part of the output of a check."""
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
        yield


class Summary:
    """What a set of cases observed."""

    def __init__(self):
        self.evaluations = 0
        self.events = Counter()
        self.digests = set()
        self.by_group = Counter()
        self.distinct_by_group = Counter()
        self.samples = {}
        self.violations = []
        self.worst = {}

    def add(self, case):
        self.evaluations += 1
        self.events.update(case.events)
        self.by_group[case.group] += 1
        if case.nontrivial and case.events["verdicts"] > 0:
            d = case.group + case.hash.hexdigest()
            if d not in self.digests:
                self.digests.add(d)
                self.distinct_by_group[case.group] += 1
        if case.group not in self.samples and case.index < 40:
            self.samples[case.group] = {
                "group": case.group, "index": case.index,
                "case": plain(case.params), "events": dict(case.events),
                "observation_sha1": case.hash.hexdigest()}
        for v in case.violations:
            v["case"] = plain(case.params)
        self.violations.extend(case.violations)
        for k, w in case.worst.items():
            k = case.group + ": " + k
            if w[0] > self.worst.get(k, (0.0,))[0]:
                self.worst[k] = (w[0], case.index)

    def merge(self, other):
        self.evaluations += other.evaluations
        self.events.update(other.events)
        self.by_group.update(other.by_group)
        for d in other.digests - self.digests:
            self.distinct_by_group[d[:-40]] += 1
        self.digests |= other.digests
        for k, v in other.samples.items():
            if k not in self.samples or v["index"] < self.samples[k]["index"]:
                self.samples[k] = v
        self.violations.extend(other.violations)
        for k, w in other.worst.items():
            if w[0] > self.worst.get(k, (0.0,))[0]:
                self.worst[k] = w


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
