"""Known findings: identified by property, group and failing monitor.

Lines of known_findings.txt:
  known: property=<id> group=<group> what=<start of the monitor's message> :: <text>
  fixed: property=<id> <commit> <text>
"""
import os
import re

from . import build

PATH = os.path.join(build.VERIF, "known_findings.txt")


def load(prop):
    found = []
    if not os.path.exists(PATH):
        return found
    with open(PATH) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) group=(\S+) what=(.*?) :: (.*)",
                         line.strip())
            if m and m.group(1) == prop:
                found.append(m.groups()[1:])
    return found


def match(known, violation):
    for group, what, text in known:
        if violation["group"] == group and violation["what"].startswith(what):
            return text
    return None
