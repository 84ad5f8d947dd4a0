"""Writes MANIFEST.json from the property modules."""
import ast
import json
import os

from . import build

NOTE = ("Randomised and hostile executions of the real code, judged by "
        "monitors. Holds for the executions that were observed.")


def constant(text, name):
    for node in ast.parse(text).body:
        if isinstance(node, ast.Assign) \
                and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


def main():
    checks, missing = [], []
    with open(os.path.join(build.VERIF, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    for i in ids:
        path = os.path.join(build.VERIF, "mpv", "props", i.lower() + ".py")
        if not os.path.exists(path):
            missing.append({"property": i, "reason": "no check yet"})
            continue
        with open(path) as f:
            text = f.read()
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick bin/check " + i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": constant(text, "TECHNIQUE"),
            "level": "exploration",
            "level_note": constant(text, "LEVEL_NOTE") or NOTE})
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m mpv.setup",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Commands run in /verif. VERIF_SEED selects the seed "
                 "(default 1). No hooks in /repo.",
    }
    with open(os.path.join(build.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
