#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--jobs N] [--only NAME]

Decides one property of /repo's current source: every harness configuration of
checks/<PROPERTY>.py is executed symbolically and its assertions are discharged
by z3.  Counterexamples are replayed against a scratch build of the real code.

exit 0: every assertion holds on every path within the bounds
exit 1: VIOLATION (reproduced on the real code)
        (what stayed undecided, if anything, is printed as UNDECIDED and listed in
        the evidence; it has to be the smaller part of the configurations)
exit 2: no verdict: harness error, vacuous harness, or half of the configurations
        or more undecided (unsupported construct, solver gave up, out of time,
        counterexample not reproduced)
"""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(k, "1")


def load_check(prop):
    path = os.path.join(HERE, "checks", prop + ".py")
    spec = importlib.util.spec_from_file_location("check", path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["check"] = m
    spec.loader.exec_module(m)
    return m, path


def _worker(args):
    prop, i, tier, seed, budget = args
    from symx import job

    m, path = load_check(prop)
    cfg = configs(m, tier)[i]
    spec = dict(cfg["opts"], fn=getattr(m, cfg["harness"]), params=cfg["params"], name=cfg["name"], seed=seed)
    spec.setdefault("budget", budget)
    r = job.run_job(spec)
    r["index"] = i
    return r


def configs(m, tier):
    out = []
    for c in m.configs(tier):
        h, params = c[0], c[1]
        opts = c[2] if len(c) > 2 else {}
        nm = h + "(" + ",".join("%s=%s" % (k, v) for k, v in params.items()) + ")"
        out.append(dict(harness=h, params=params, opts=opts, name=nm))
    return out


def known(prop):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    m, path = load_check(a.prop)
    cfgs = configs(m, tier)
    if a.list:
        for c in cfgs:
            print(c["name"])
        return 0
    idx = [i for i, c in enumerate(cfgs) if not a.only or a.only in c["name"]]
    total = 780 if tier == "quick" else 5400
    results = []
    ctx = mp.get_context("fork")
    # long configurations first
    idx.sort(key=lambda i: -cfgs[i]["opts"].get("cost", 1))
    with ctx.Pool(min(a.jobs, max(1, len(idx))), maxtasksperchild=4) as pool:
        jobs = [pool.apply_async(_worker, ((a.prop, i, tier, seed, total * 0.7),)) for i in idx]
        for i, j in zip(idx, jobs):
            left = max(1.0, total - (time.time() - t0))
            try:
                r = j.get(timeout=left)
            except mp.TimeoutError:
                r = dict(name=cfgs[i]["name"], index=i, error="inconclusive: out of time", failures=[],
                         unknowns=[], stats={}, functions=[], reached=[], labels={}, wall=left)
            except Exception as e:
                r = dict(name=cfgs[i]["name"], index=i, error="worker: %r" % e, failures=[],
                         unknowns=[], stats={}, functions=[], reached=[], labels={}, wall=0)
            results.append(r)
            if a.v:
                print("%-60s %6.1fs paths=%s q=%s/%s fail=%d unk=%d %s" % (
                    r["name"][:60], r["wall"], r["stats"].get("paths"), r["stats"].get("assert_queries"),
                    r["stats"].get("branch_queries"), len(r["failures"]), len(r["unknowns"]),
                    r["error"] or "" + " slowest %.1fs %s" % (
                        r["stats"].get("slowest_s", 0), r["stats"].get("slowest", ""))), flush=True)
                for f in r["failures"]:
                    print("   FAIL", f["label"], f["models"][0] if f["models"] else None)
                for u in r["unknowns"][:5]:
                    print("   UNKNOWN", u)
            # enough evidence of a violation: do not wait for the rest
            if sum(len(x["failures"]) for x in results) >= 12:
                pool.terminate()
                break
    failures = [(r, f) for r in results for f in r["failures"]]
    confirmed, unconfirmed, errors, soft = [], [], [], []
    for r in results:
        if r["error"]:
            ok = r["error"].startswith(("inconclusive:", "unsupported:"))
            (soft if ok else errors).append("%s: %s" % (r["name"], r["error"]))
        for u in r["unknowns"]:
            soft.append("%s: solver gave no answer for '%s'" % (r["name"], u))
    if not errors and not soft and not failures and not a.only:
        for h, want in getattr(m, "REACH", {}).items():
            got = set(x for r in results if cfgs[r["index"]]["harness"] == h for x in r["reached"])
            if set(want) - got:
                errors.append("%s: never reached %s (vacuous)" % (h, sorted(set(want) - got)))
    if failures and not a.no_replay:
        confirmed, unconfirmed, rerrors = confirm(a.prop, path, cfgs, failures, t0)
        errors += rerrors
    elif failures:
        unconfirmed = failures
    kf = known(a.prop)
    fresh = []
    seen = set()
    for c in confirmed:
        hit = [k for k in kf if k[0] in c["name"]]
        if hit:
            seen.add(hit[0])
        else:
            fresh.append(c)
    wall = time.time() - t0
    if not a.only and not a.no_evidence:
        evidence(a.prop, m, tier, seed, results, cfgs, confirmed, errors + soft, wall)
    for k in kf:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k[1]))
    st = summary(results)
    print("%s %s: %d configurations, %d paths, %d assertions (%d decided by solver), %.1f s solver, %.1f s"
          % (a.prop, tier, len(results), st["paths"], st["assertions"], st["assert_queries"],
             st["solver_s"], wall))
    if fresh:
        for c in fresh[:5]:
            print("VIOLATION property=%s replay=%s" % (a.prop, c["replay"]))
            print("  %s\n  %s\n  inputs %s" % (c["name"], c["detail"], json.dumps(bare_values(c["values"]))))
        return 1
    open_ = set(r["index"] for r in results if r["error"] or r["unknowns"])
    open_ |= set(r["index"] for r, f in unconfirmed)
    for e in errors[:20]:
        print("NO VERDICT " + e[:600])
    for e in soft[:20]:
        print("UNDECIDED " + e[:600])
    for r, f in unconfirmed[:10]:
        print("UNDECIDED not reproduced %s: %s %s" % (r["name"], f["label"], [bare_values(m) for m in f["models"][:1]]))
    if open_:
        print("UNDECIDED %d of %d configurations; everything else holds" % (len(open_), len(results)))
    return 2 if errors or 2 * len(open_) >= len(results) + (len(results) == 1) else 0


def bare_values(m):
    return dict((k, v) for k, v in m.items() if not k.startswith("STEP_"))


def confirm(prop, path, cfgs, failures, t0):
    from symx import replay

    confirmed, unconfirmed, errors = [], [], []
    work = tempfile.mkdtemp(prefix="arctic-replay-")
    repo = os.environ.get("VERIF_REPO", "/repo")
    done = set()
    try:
        for r, f in failures:
            cfg = cfgs[r["index"]]
            if len(confirmed) >= 5 and time.time() - t0 > 400:
                break
            key = (r["index"], f["label"])
            if key in done:
                continue
            done.add(key)
            mem = f["label"].startswith("memory ")
            try:
                root = replay.build(repo, mem, work)
            except Exception as e:
                errors.append("replay build: %s" % e)
                unconfirmed.append((r, f))
                continue
            ok = False
            verdict, detail = "none", "only inputs within rounding of zero"
            # the trap response of the counterexample first, then a generic one
            bare = [bare_values(m) for m in f["models"]]
            for vals in [x for m, n in zip(f["models"], bare) for x in ((m, n) if len(n) < len(m) else (m,))]:
                try:
                    verdict, detail = replay.replay(root, path, cfg["harness"], cfg["params"], vals)
                except Exception as e:
                    verdict, detail = "error", repr(e)
                if verdict in ("violated", "crashed"):
                    d = os.path.join(HERE, "replays")
                    os.makedirs(d, exist_ok=True)
                    fn = os.path.join(d, "%s-%d.json" % (prop, len(confirmed)))
                    with open(fn, "w") as g:
                        json.dump(dict(property=prop, check=path, harness=cfg["harness"],
                                       params=cfg["params"], values=vals, label=f["label"],
                                       detail=detail, bounds_checked_build=mem), g, indent=1)
                    confirmed.append(dict(name=cfg["name"], label=f["label"], detail=detail,
                                          values=vals, replay=fn))
                    ok = True
                    break
            if not ok:
                f["replay"] = (verdict, detail)
                print("replay of %s [%s]: %s %s" % (cfg["name"], f["label"], verdict, detail[:300]))
                unconfirmed.append((r, f))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if confirmed:
        # counterexamples of the same kind whose rounding hides them are not errors
        unconfirmed = []
    return confirmed, unconfirmed, errors


def summary(results):
    t = dict(paths=0, assertions=0, assert_queries=0, branch_queries=0, solver_s=0.0, pruned=0,
             trivially_true=0, branch_unknown=0)
    for r in results:
        for k in t:
            t[k] += r["stats"].get(k, 0)
    return t


def evidence(prop, m, tier, seed, results, cfgs, confirmed, errors, wall):
    st = summary(results)
    fns = sorted(set(x for r in results for x in r["functions"]))
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            k = k.split("[")[0]
            labels[k] = labels.get(k, 0) + v
    top = sorted(labels.items(), key=lambda kv: -kv[1])[:60]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=(
                "Symbolic execution of the functions listed (from /repo's current source) along every "
                "feasible path of each harness configuration; every assertion on every path is decided "
                "by z3 for all values of the symbolic inputs within the bounds. " + m.BOUNDS),
            technique="path-exhaustive symbolic execution + SMT (z3)",
            bounds=m.BOUNDS, outside=getattr(m, "OUTSIDE", ""),
            configurations=[r["name"] for r in results],
            functions_encoded=fns,
            paths=st["paths"], paths_infeasible=st["pruned"],
            assertions=st["assertions"], assertions_true_by_construction=st["trivially_true"],
            assertion_queries=st["assert_queries"], branch_queries=st["branch_queries"],
            branches_kept_undecided=st["branch_unknown"],
            solver_seconds=round(st["solver_s"], 2),
            assertion_labels=dict(top),
            undecided=errors[:20]),
        wall_s=round(wall, 2),
        assumptions=list(getattr(m, "ASSUMPTIONS", [])) + COMMON,
        violations=[dict(id=c["name"], detail=c["detail"], replay=c["replay"]) for c in confirmed])
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


COMMON = [
    "symbolic quantities are exact reals (rounding of symbolic arithmetic is outside the claim); "
    "concrete numbers keep IEEE double semantics",
    "the numpy operations used are modelled element by element (symx/arr.py); Cython code is translated "
    "from its own parse tree with C coercions and unchecked indexing (symx/cy.py)",
]

if __name__ == "__main__":
    sys.exit(main())
