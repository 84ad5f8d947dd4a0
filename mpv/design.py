"""Rewrites the section of DESIGN.md about the single properties.

python -m mpv.design takes titles from properties.jsonl and technique,
workload, groups of monitors and assumptions from the modules themselves.
"""
import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN = "<!-- generated by mpv/design.py -->"
END = "<!-- end of generated part -->"


def constants(prop):
    path = os.path.join(VERIF, "mpv", "props", prop.lower() + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    out = {}
    docs = {}
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            doc = ast.get_docstring(node)
            docs[node.name] = " ".join(doc.split()) if doc else ""
        if not isinstance(node, ast.Assign):
            continue
        name = getattr(node.targets[0], "id", None)
        if name in ("TECHNIQUE", "RULE", "ASSUMPTIONS"):
            out[name] = ast.literal_eval(node.value)
        elif name == "GROUPS":
            out[name] = [
                (ast.literal_eval(c.args[0]), c.args[1].id,
                 ast.literal_eval(c.args[2]), ast.literal_eval(c.args[3]))
                for c in node.value.elts]
    out["docs"] = docs
    return out


def section():
    lines = [BEGIN, ""]
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        props = [json.loads(line) for line in f if line.strip()]
    for p in props:
        c = constants(p["id"])
        lines.append("### %s %s" % (p["id"], p["title"]))
        lines.append("")
        lines.append("* Oracle: %s." % c["TECHNIQUE"].rstrip("."))
        lines.append("* Workload: %s" % c["RULE"])
        lines.append("* Why tests cannot settle it: %s"
                     % p["why_tests_cant"])
        if c["ASSUMPTIONS"]:
            lines.append("* Assumes: %s." % "; ".join(c["ASSUMPTIONS"]))
        lines.append("* Monitors (cases quick / thorough):")
        for name, fn, quick, thorough in c["GROUPS"]:
            doc = c["docs"].get(fn, "")
            lines.append("  * `%s` %d / %d%s" % (
                name, quick, thorough, ": " + doc if doc else ""))
        lines.append("")
    lines.append(END)
    return "\n".join(lines)


def main():
    path = os.path.join(VERIF, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    head, rest = text.split(BEGIN)
    tail = rest.split(END)[1]
    with open(path, "w") as f:
        f.write(head + section() + tail)


if __name__ == "__main__":
    main()
