#!/opt/venv/bin/python
"""Writes the generated part of DESIGN.md (below the marker): bounds per property
from checks/*.py, planted bugs from seeded/*/meta.json, refactorings from tools/."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, "checks")]
MARK = "<!-- below: written by tools/design.py -->\n"


def check(f):
    spec = importlib.util.spec_from_file_location("check", f)
    m = importlib.util.module_from_spec(spec)
    sys.modules["check"] = m
    spec.loader.exec_module(m)
    return m


def main():
    out = [MARK, "\n## Bounds of each check\n\n",
           "Configurations: quick / thorough. Each is explored path by path; all values named are symbolic.\n\n"]
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f[0] not in "ABCD" or not f[1:3].isdigit():
            continue
        m = check(os.path.join(HERE, "checks", f))
        q, t = m.configs("quick"), m.configs("thorough")
        out.append("* **%s** (%d / %d; harnesses %s). %s%s\n" % (
            f[:3], len(q), len(t), ", ".join(sorted(set(c[0] for c in t))), m.BOUNDS,
            " *Outside:* " + m.OUTSIDE if getattr(m, "OUTSIDE", "") else ""))
    out.append("\n## Planted bugs\n\nAll in `seeded/`, each confirmed with `tools/plant.py` (builds, passes the stable tests, "
               "demo fails with it and passes without). Caught: exit 1 by the property's own quick check.\n\n"
               "| bug | needs | caught by |\n|---|---|---|\n")
    res = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        meta = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
        out.append("| %s | %s | %s |\n" % (b, meta["needs"], res.get(b, "?")))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read().split(MARK)[0]
    open(p, "w").write(s.rstrip() + "\n\n" + "".join(out))


if __name__ == "__main__":
    main()
