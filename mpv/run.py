"""Runs the monitors of one property."""
import argparse
import importlib
import os
import pickle
import random
import sys
import time

from . import build, core, known

EVIDENCE = os.path.join(build.VERIF, "evidence")


def worker(module, tier, seed, tasks, conn, progress):
    """Runs a share of the cases in a forked process."""
    summary = core.Summary()
    failed = {}
    for group, index in tasks:
        if failed.get(group.name, 0) >= 5:
            continue
        with open(progress, "w") as f:
            f.write("%s %d" % (group.name, index))
        case = core.Case(module.PROPERTY, group.name, index, seed, tier)
        core.run_case(group.fn, case, group.limit)
        if case.violations:
            failed[group.name] = failed.get(group.name, 0) + 1
        summary.add(case)
    conn.write(pickle.dumps(summary))
    conn.close()


def run_parallel(module, tier, seed, jobs, only=None):
    tasks = []
    for g in module.GROUPS:
        if only and g.name not in only:
            continue
        tasks += [(g, i) for i in range(g.count(tier))]
    # neighbouring cases differ in cost by kind: spread them over processes
    random.Random(0).shuffle(tasks)
    jobs = max(1, min(jobs, len(tasks)))
    scratch = os.environ["MPV_SCRATCH"]
    children = []
    sys.stdout.flush()
    for k in range(jobs):
        r, w = os.pipe()
        progress = os.path.join(scratch, "progress%d" % k)
        pid = os.fork()
        if pid == 0:
            status = 1
            try:
                os.close(r)
                for c in children:
                    c[1].close()
                worker(module, tier, seed, tasks[k::jobs],
                       os.fdopen(w, "wb"), progress)
                status = 0
            except BaseException:
                import traceback
                traceback.print_exc()
                status = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(status)
        os.close(w)
        children.append((pid, os.fdopen(r, "rb"), progress))
    summary = core.Summary()
    error = None
    for pid, r, progress in children:
        data = r.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            where = open(progress).read() if os.path.exists(progress) else "?"
            if os.WIFSIGNALED(status):
                group, _, index = where.partition(" ")
                summary.violations.append(
                    {"group": group, "index": int(index or 0),
                     "what": "process killed by signal %d"
                     % os.WTERMSIG(status), "detail": {}, "case": {}})
            else:
                error = "worker failed at " + where
        else:
            summary.merge(pickle.loads(data))
    return summary, error


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int,
                        default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--jobs", type=int, default=int(
        os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    parser.add_argument("--group", action="append")
    parser.add_argument("--worst", action="store_true")
    args = parser.parse_args()
    if args.tier not in ("quick", "thorough"):
        print("unknown tier", args.tier)
        return 2
    start = time.time()
    name = "mpv.props." + args.property.lower()
    try:
        # variant of the extension the property needs in this process
        with open(os.path.join(build.VERIF, *name.split(".")) + ".py") as f:
            text = f.read()
        variant = "normal"
        if "\nVARIANT = \"" in text:
            variant = text.split("\nVARIANT = \"")[1].split("\"")[0]
        build.install(variant)
    except build.BuildError as e:
        print("ERROR: cannot build:", e)
        return 2
    try:
        module = importlib.import_module(name)
    except Exception:
        # the package itself cannot be imported
        import traceback
        traceback.print_exc()
        return 2

    if args.replay:
        return replay(module, args.replay)

    if hasattr(module, "prepare"):
        try:
            module.prepare()
        except Exception as e:
            print("ERROR: cannot prepare:", e)
            return 2
    summary, error = run_parallel(
        module, args.tier, args.seed, args.jobs, args.group)
    findings = known.load(args.property)
    status = 0
    reported = set()
    printed = set()
    n_new = 0
    summary.violations.sort(key=lambda v: (v["group"], v["index"]))
    for v in summary.violations:
        text = known.match(findings, v)
        if text is not None:
            if text not in printed:
                printed.add(text)
                print("KNOWN-FINDING: property=%s %s" % (args.property, text))
            continue
        status = 1
        n_new += 1
        key = (v["group"], v["what"])
        if key in reported or len(reported) >= 8:
            continue
        reported.add(key)
        directory = os.path.join(EVIDENCE, "replay")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, "%s-%s-%d.json" % (
            args.property, v["group"], v["index"]))
        core.dump(path, dict(v, property=args.property, seed=args.seed,
                             tier=args.tier))
        print("  %s[%d]: %s %s" % (v["group"], v["index"], v["what"],
                                   str({k: w for k, w in v["detail"].items()
                                        if k != "traceback"})[:600]))
        print("VIOLATION property=%s replay=%s" % (args.property, path))
    evidence = {
        "property": args.property, "tier": args.tier, "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": summary.evaluations,
            "distinct_nontrivial": len(summary.digests),
            "rule": module.RULE + " A case counts as distinct and non-trivial "
            "if its monitors gave at least one verdict on observed data that "
            "is not constant and whose fingerprint (SHA-1 of all observed "
            "values) differs from all other cases of its group.",
            "samples": [summary.samples[k] for k in sorted(summary.samples)],
            "monitor_events": dict(summary.events),
            "cases_per_group": dict(summary.by_group),
            "distinct_per_group": dict(summary.distinct_by_group),
            "closest_to_tolerance": {
                k: round(w[0], 6) for k, w in sorted(
                    summary.worst.items(), key=lambda kw: -kw[1][0])[:12]},
        },
        "wall_s": round(time.time() - start, 3),
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "violations": n_new,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    if not args.group:
        core.dump(os.path.join(EVIDENCE, args.property + ".json"), evidence)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d verdicts, "
          "%d values observed, %d violations, %.1f s" % (
              args.property, args.tier, args.seed, summary.evaluations,
              len(summary.digests), summary.events["verdicts"],
              summary.events["values_observed"], n_new, time.time() - start))
    if args.worst:
        for k, w in sorted(summary.worst.items(), key=lambda kw: -kw[1][0]):
            print("   %10.3g  %s %s" % (w[0], k, w[1:]))
    if status == 0 and error:
        print("ERROR:", error)
        return 2
    if status == 0:
        empty = [g.name for g in module.GROUPS if g.count(args.tier) > 0
                 and (not args.group or g.name in args.group)
                 and summary.distinct_by_group[g.name] == 0]
        if empty:
            print("INCONCLUSIVE: nothing observed in", ", ".join(empty))
            return 2
    return status


def replay(module, path):
    import json
    with open(path) as f:
        v = json.load(f)
    for g in module.GROUPS:
        if g.name == v["group"]:
            if hasattr(module, "prepare"):
                module.prepare()
            case = core.Case(module.PROPERTY, g.name, v["index"], v["seed"],
                             v.get("tier", "quick"))
            core.run_case(g.fn, case, g.limit)
            print("case:", core.plain(case.params))
            for w in case.violations:
                print(w["what"], w["detail"])
                print("VIOLATION property=%s replay=%s"
                      % (module.PROPERTY, path))
            return 1 if case.violations else 0
    print("unknown group", v["group"])
    return 2


if __name__ == "__main__":
    sys.exit(main())
