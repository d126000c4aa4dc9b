#!/opt/venv/bin/python
"""plant.py SPEC.py [--props A01,A02] [--keep-missed]

SPEC.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO (a Python program).  Applies the edits to a scratch copy of /repo, builds
it, runs the existing tests, runs the demo on both trees, writes
seeded/<name of SPEC>/ and runs the property's check against the scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/var/mpl", PYTHONDONTWRITEBYTECODE="1")
DEMO_SH = """#!/bin/bash
# cwd: /repo after its build; exit 0 on the unchanged tree
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/var/mpl PYTHONDONTWRITEBYTECODE=1
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def main():
    spec = {}
    path = sys.argv[1]
    exec(open(path).read(), spec)
    name = os.path.splitext(os.path.basename(path))[0]
    props = [spec["PROPERTY"]]
    if "--props" in sys.argv:
        props = sys.argv[sys.argv.index("--props") + 1].split(",")
    work = tempfile.mkdtemp(prefix="plant-")
    m = os.path.join(work, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", m])
        base_lines = set()
        for f in set(e[0] for e in spec["EDITS"]):
            base_lines |= set(sh(["git", "show", "4ab583c:" + f], "/repo").stdout.decode().replace("\r", "").split("\n"))
        pyx = False
        for f, old, new in spec["EDITS"]:
            p = os.path.join(m, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            if s.count(old) != 1:
                print(name, "EDIT FAILS: %d matches of %r" % (s.count(old), old[:60]))
                return 1
            s = s.replace(old, new)
            if crlf:
                s = s.replace("\n", "\r\n")
            open(p, "w", newline="").write(s)
            pyx |= f.endswith(".pyx")
        diff = subprocess.run(["git", "diff"], cwd=m, stdout=subprocess.PIPE).stdout
        for line in diff.decode().replace("\r", "").split("\n"):
            if line.startswith("-") and not line.startswith("---") and line[1:] not in base_lines:
                print(name, "CHANGES A LINE OF A FIX:", line)
        if pyx:
            r = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], m)
            if r.returncode:
                print(name, "BUILD FAILS", r.stdout.decode()[-800:])
                return 1
        x = os.path.join(work, "x.xml")
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
            "--disable-warnings", "-o", "junit_family=xunit2", "--junitxml=" + x, "test_arcticpy"],
           m, dict(ENV, PYTHONPATH=m))
        o = os.path.join(work, "o.json")
        sh(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + x], m)
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base.get("stable", base.get("passed", base if isinstance(base, list) else [])))
        got = set(json.load(open(o))["passed"])
        if want - got:
            print(name, "TESTS FAIL:", sorted(want - got)[:5])
            return 1
        d = os.path.join(HERE, "seeded", name)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        b = sh(["bash", os.path.join(d, "demo.sh")], m)
        if a.returncode or not b.returncode:
            print(name, "DEMO WRONG: clean", a.returncode, a.stdout.decode()[-600:], "patched", b.returncode,
                  b.stdout.decode()[-400:])
            shutil.rmtree(d)
            return 1
        print(name, "VALID")
        for q in props if "--no-check" not in sys.argv else ():
            t = time.time()
            r = sh([os.path.join(HERE, "run.py"), q, "--no-evidence"], HERE, dict(os.environ, VERIF_REPO=m), 1000)
            out = r.stdout.decode()
            print(name, q, {0: "MISSED", 1: "caught", 2: "NO VERDICT"}.get(r.returncode, r.returncode),
                  "%.0fs" % (time.time() - t))
            if r.returncode != 1:
                print("   ", out[-700:])
            else:
                print("   ", [l for l in out.split("\n") if l.startswith("  ")][:2])
            sys.stdout.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
