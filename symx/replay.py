"""Replays counterexamples against the real code.

Run as a program: replay.py CHECKFILE HARNESS PARAMS_JSON VALUES_JSON
(in an environment whose PYTHONPATH leads to a build of arcticpy).
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def build(repo, checked, work):
    """A scratch build of the repository's extensions; returns its root."""
    root = os.path.join(work, "checked" if checked else "real")
    if os.path.isdir(root):
        return root
    os.makedirs(root)
    shutil.copytree(os.path.join(repo, "arcticpy"), os.path.join(root, "arcticpy"),
                    ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
    for f in ("README.md", "requirements.txt", "setup.py"):
        if os.path.exists(os.path.join(repo, f)):
            shutil.copy(os.path.join(repo, f), root)
    if checked:
        for f in os.listdir(os.path.join(root, "arcticpy")):
            if f.endswith(".pyx"):
                p = os.path.join(root, "arcticpy", f)
                s = open(p).read()
                s = s.replace("boundscheck(False)", "boundscheck(True)")
                s = s.replace("boundscheck=False", "boundscheck=True")
                open(p, "w").write(s)
    env = _env(root)
    env["CFLAGS"] = "-O1"
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=root, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if r.returncode:
        raise RuntimeError("scratch build failed: " + r.stdout.decode()[-800:])
    return root


def _env(root):
    env = dict(os.environ)
    env.update(PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR="/opt/venv/var/mpl", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return env


def replay(root, checkfile, harness, params, values, timeout=120):
    """('violated'|'held'|'skipped'|'crashed'|'error', detail)"""
    r = subprocess.run(
        [PY, os.path.abspath(__file__), checkfile, harness, json.dumps(params), json.dumps(values)],
        cwd=root, env=_env(root), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    last = r.stdout.decode().strip().splitlines()
    for line in reversed(last):
        if line.startswith("REPLAY "):
            d = json.loads(line[7:])
            return d["verdict"], d["detail"]
    if r.returncode < 0:
        return "crashed", "signal %d" % -r.returncode
    return "error", r.stderr.decode()[-600:]


def main(argv):
    import importlib.util
    import traceback
    import warnings

    import numpy as np

    checkfile, harness, params, values = argv[0], argv[1], json.loads(argv[2]), json.loads(argv[3])
    sys.path.append(HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    from symx import world

    sys.path.insert(0, os.path.dirname(checkfile))
    spec = importlib.util.spec_from_file_location("check", checkfile)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    W = world.ConWorld(values)
    fn = getattr(m, harness)
    verdict, detail = "held", ""
    try:
        fn(W, **params)
    except world.Skip:
        verdict = "skipped"
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = any("/arcticpy/" in f.filename for f in frames)
        verdict = "violated" if inside else "error"
        detail = "%s: %s (%s)" % (type(e).__name__, e, traceback.format_exc(limit=-3))
    if verdict == "held" and W.failed:
        verdict, detail = "violated", "; ".join(W.failed[:6])
    print("REPLAY " + json.dumps(dict(verdict=verdict, detail=detail, checked=W.checked)))


if __name__ == "__main__":
    main(sys.argv[1:])
