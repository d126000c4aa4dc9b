"""Frames keep their frame information."""
import cl
import modes

BOUNDS = ("Frames of 1 to 3 rows by 1 to 2 columns with every mask, any corner, scans and exposure information; adding and removing CTI "
          "in no, either or both directions with 0 to 2 iterations; any image and any trap response.")
ASSUMPTIONS = ["autoarray's Frame is modelled: an array with these attributes whose masked pixels are set to zero when it is made"]
REACH = {"frame": ["masked", "unmasked"]}


def frame(W, what, rows, cols, iterations=1, mode="roe", phases=1, directions=("parallel",), express=0):
    import numpy

    cl.patch(W)
    x = W.image("x", rows, cols)
    mask = numpy.array([[bool(W.bool("mask_%d_%d" % (r, c))) for c in range(cols)] for r in range(rows)])
    W.reach("masked" if mask.any() else "unmasked")
    corner = W.pick("corner", [(0, 0), (0, 1), (1, 0), (1, 1)])
    scans, exposure = _Info("scans"), _Info("exposure")
    f = W.Frame(W.array(x), mask, original_roe_corner=corner, scans=scans, exposure_info=exposure)
    k = {}
    for i, d in enumerate(directions):
        k.update({d + "_ccd": cl.ccd(W, phases, None, 1.0 + i), d + "_roe": modes.roe(W, mode, phases),
                  d + "_traps": cl.trap(W, 1.0 + i), d + "_express": express})
    bare = [[0.0 if mask[r, c] else x[r][c] for c in range(cols)] for r in range(rows)]

    def add(rows_):
        got = W.ac.add_cti(image=W.array(rows_), **k)
        return [[0.0 if mask[r, c] else got[r, c] for c in range(cols)] for r in range(rows)]

    if what == "add":
        got = W.ac.add_cti(image=f, **k)
        want = add(bare)
    else:
        got = W.ac.remove_cti(image=f, iterations=iterations, **k)
        want = bare
        for i in range(iterations):
            m = add(want)
            want = [[want[r][c] + (bare[r][c] - m[r][c]) for c in range(cols)] for r in range(rows)]
    for o, nm in ((got, "returned"), (f, "given")):
        W.check(type(o) is W.Frame, nm + ": a frame")
        W.check(tuple(o.original_roe_corner) == corner, nm + ": corner")
        W.check(o.scans == scans, nm + ": scans")
        W.check(o.exposure_info == exposure, nm + ": exposure information")
        W.check(bool((numpy.asarray(o.mask) == mask).all()), nm + ": mask")
    W.check(tuple(got.shape) == (rows, cols), "shape")
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], want[r][c], "pixels as for the bare array")
            W.eq(f[r, c], bare[r][c], "pixels of the given frame", 0)


class _Info(object):
    """Compared by value, as copies of exposure information are."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, _Info) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def bare(W, what, rows, cols, directions):
    """Bare arrays stay bare arrays."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    k = {}
    for d in directions:
        k.update({d + "_ccd": cl.ccd(W, 1), d + "_traps": cl.trap(W)})
    got = W.ac.add_cti(image=img, **k) if what == "add" else W.ac.remove_cti(image=img, iterations=1, **k)
    W.check(not isinstance(got, W.Frame), "no frame")
    W.check(tuple(got.shape) == (rows, cols), "shape")


def configs(tier):
    q = tier == "quick"
    out = []
    for directions in ((), ("parallel",), ("serial",), ("parallel", "serial")):
        for what in ("add", "remove"):
            for rows, cols in ((2, 1), (1, 2), (2, 2)) + (() if q else ((3, 2), (2, 3))):
                out.append(("frame", dict(what=what, rows=rows, cols=cols, directions=directions), dict(cost=rows * cols)))
            out.append(("bare", dict(what=what, rows=2, cols=2, directions=directions)))
        out.append(("frame", dict(what="remove", rows=2, cols=1, directions=directions, iterations=0)))
        out.append(("frame", dict(what="remove", rows=2, cols=1, directions=directions, iterations=2)))
    out.append(("frame", dict(what="add", rows=3, cols=1, mode="injection")))
    out.append(("frame", dict(what="add", rows=3, cols=1, phases=2, express=1)))
    out.append(("frame", dict(what="remove", rows=3, cols=1, phases=2, express=1)))
    return out
