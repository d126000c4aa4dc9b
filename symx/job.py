"""One harness configuration, explored symbolically."""
import os
import sys
import time
import traceback
import warnings

import numpy as np

from . import core, cy, load, world

_PKG = None


def package():
    global _PKG
    if _PKG is None:
        _PKG = load.Package()
    return _PKG


def _where(tb, pkgdir):
    """Innermost frame inside the code under analysis, and whether the
    exception surfaced from it (rather than from the harness itself)."""
    frames = traceback.extract_tb(tb)
    last = None
    for f in frames:
        if f.filename.startswith(pkgdir):
            last = f
    # an exception raised by the engine for the code counts as the code's own
    harness = [f for f in frames if "/verif/checks/" in f.filename or "/checks/" in f.filename]
    inside = last is not None and (not harness or frames.index(last) > frames.index(harness[-1]))
    return inside, ("%s:%s" % (os.path.basename(last.filename), last.name) if last else "?")


def run_job(spec):
    """spec: dict(fn, params, name, branch_ms, assert_ms, max_paths, budget, seed)"""
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    fn = spec["fn"]
    out = dict(name=spec["name"], error=None, failures=[], unknowns=[], stats={}, functions=[],
               reached=[], labels={}, wall=0.0)
    t0 = time.time()
    try:
        pkg = package()
    except Exception as e:  # the source does not translate
        out["error"] = "cannot encode: %s: %s" % (type(e).__name__, e)
        return out
    eng = core.Engine(branch_ms=spec.get("branch_ms", 150), assert_ms=spec.get("assert_ms", 20000),
                      max_paths=spec.get("max_paths", 20000), seed=spec.get("seed", 1),
                      deadline=t0 + spec.get("budget", 300))
    eng.pkgdir = pkg.dir
    eng.naming = spec.get('naming', True)

    def one():
        W = world.SymWorld(pkg, eng)
        try:
            fn(W, **spec["params"])
        except (core.Unsupported, core.Inconclusive, world.Skip):
            raise
        except Exception as e:
            inside, where = _where(e.__traceback__, pkg.dir)
            if not inside:
                raise
            kind = "memory" if isinstance(e, cy.MemoryViolation) else "exception"
            eng.fail("%s %s in %s: %s" % (kind, type(e).__name__, where, e))

    try:
        with load.Coverage(pkg) as cov:
            eng.explore(one)
    except core.Unsupported as e:
        out["error"] = "unsupported: %s (%s)" % (e, _where(e.__traceback__, pkg.dir)[1])
    except core.Inconclusive as e:
        out["error"] = "inconclusive: %s" % e
    except Exception as e:
        out["error"] = "harness %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))
    except RecursionError as e:
        out["error"] = "recursion: %s" % e
    out["stats"] = dict(eng.stats)
    out["failures"] = eng.failures
    out["unknowns"] = sorted(set(eng.unknowns))
    out["functions"] = sorted(cov.seen)
    out["reached"] = sorted(eng.reached)
    out["labels"] = dict(eng.label_counts)
    out["wall"] = time.time() - t0
    return out
