#!/opt/venv/bin/python
"""seeded.py [NAME ...]: runs the checks against scratch copies of /repo with the
planted bugs applied; records in caught.json which check catches which."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import HERE, sh

REC = os.path.join(HERE, "tools", "caught.json")


def main():
    names = [a for a in sys.argv[1:]] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for b in names:
        d = os.path.join(HERE, "seeded", b)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        work = tempfile.mkdtemp(prefix="seeded-")
        try:
            m = os.path.join(work, "repo")
            subprocess.check_call(["cp", "-a", "/repo", m])
            r = sh(["git", "apply", os.path.join(d, "patch.diff")], m)
            if r.returncode:
                print(b, "DOES NOT APPLY")
                continue
            t = time.time()
            r = sh([os.path.join(HERE, "run.py"), prop, "--no-evidence"], HERE, dict(os.environ, VERIF_REPO=m), 1000)
            o = r.stdout.decode()
            ok = r.returncode == 1 and "VIOLATION property=%s " % prop in o
            print(b, "caught" if ok else "MISSED %d" % r.returncode, "%.0fs" % (time.time() - t), flush=True)
            if not ok:
                print("\n".join(x[:300] for x in o.splitlines()[-6:]), flush=True)
            rec = json.load(open(REC)) if os.path.exists(REC) else {}
            rec[b] = prop if ok else "not caught"
            with open(REC, "w") as f:
                json.dump(rec, f, indent=1, sort_keys=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
