#!/opt/venv/bin/python
"""refactor.py SPEC.py ... [--props A01,A02] : applies a behaviour-preserving edit
(EDITS as for plant.py, PROPS the checks it concerns) to a scratch copy of /repo,
runs the existing tests and then the checks, which must stay quiet."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ENV, HERE, PY, sh

ALL = sorted(f[:3] for f in os.listdir(os.path.join(HERE, "checks")) if f[0] in "ABCD" and f[1:3].isdigit())


def one(path, props, tests):
    spec = {}
    exec(open(path).read(), spec)
    name = os.path.splitext(os.path.basename(path))[0]
    work = tempfile.mkdtemp(prefix="refactor-")
    m = os.path.join(work, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", m])
        pyx = False
        for f, old, new in spec["EDITS"]:
            p = os.path.join(m, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            if s.count(old) != 1:
                print(name, "EDIT FAILS: %d matches of %r" % (s.count(old), old[:60]))
                return
            s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
            pyx |= f.endswith(".pyx")
        if pyx:
            r = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], m)
            if r.returncode:
                print(name, "BUILD FAILS", r.stdout.decode()[-800:])
                return
        if tests:
            x, o = os.path.join(work, "x.xml"), os.path.join(work, "o.json")
            sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--disable-warnings",
                "-o", "junit_family=xunit2", "--junitxml=" + x, "test_arcticpy"], m, dict(ENV, PYTHONPATH=m))
            sh(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + x], m)
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = set(base.get("stable", base.get("passed", base if isinstance(base, list) else [])))
            lost = want - set(json.load(open(o))["passed"])
            if lost:
                print(name, "TESTS FAIL:", sorted(lost)[:5])
                return
        for q in [] if props == ["none"] else props or spec.get("PROPS") or ALL:
            t = time.time()
            r = sh([os.path.join(HERE, "run.py"), q, "--no-evidence"], HERE, dict(os.environ, VERIF_REPO=m), 1000)
            print(name, q, {0: "quiet", 1: "ALARM", 2: "NO VERDICT"}.get(r.returncode, r.returncode), "%.0fs" % (time.time() - t))
            if r.returncode or b"UNDECIDED" in r.stdout:
                print("\n".join(x[:400] for x in r.stdout.decode().splitlines()[-8:]))
            sys.stdout.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    props = sys.argv[sys.argv.index("--props") + 1].split(",") if "--props" in sys.argv else None
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            one(a, props, "--no-tests" not in sys.argv)
