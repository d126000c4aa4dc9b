"""Removal iterates the forward model."""
import cl
import modes

BOUNDS = ("Images of 1 to 3 rows by 1 to 2 columns, 0 to 3 iterations (thorough: 4), distinct settings of every option in both directions; "
          "any image and any trap response.")
REACH = {}


def _direction(W, which, express, offset, mode="roe", phases=1, **flags):
    k = 0 if which == "parallel" else 1
    roe = modes.roe(W, mode, phases, **flags)
    roe.dwell_times = [t + 0.0625 * k for t in roe.dwell_times]
    s = dict(ccd=cl.ccd(W, phases, None, 1.0 + k), roe=roe, traps=cl.trap(W, 1.0 + k), express=express, offset=offset)
    return dict(("%s_%s" % (which, n), v) for n, v in s.items())


def iterate(W, rows, cols, iterations, par=None, ser=None, rwin=None, cwin=None, time=None):
    """estimate += image - add_cti(estimate), that many times."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    k = {}
    if par is not None:
        k.update(_direction(W, "parallel", **par))
    if ser is not None:
        k.update(_direction(W, "serial", **ser))
    if rwin:
        k["parallel_window_range"] = range(*rwin)
    if cwin:
        k["serial_window_range"] = range(*cwin)
    if time:
        k["time_window_range"] = range(*time)
    got = W.ac.remove_cti(image=img, iterations=iterations, **k)
    est = modes.rows(img)
    for i in range(iterations):
        model = W.ac.add_cti(image=W.array(est), **k)
        est = [[est[r][c] + (img[r, c] - model[r, c]) for c in range(cols)] for r in range(rows)]
    W.check(tuple(got.shape) == (rows, cols), "shape")
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], est[r][c], "estimate after the iterations")


def fixed(W, rows, iterations):
    """An estimate that reproduces the image is kept: nothing to correct."""
    cl.patch(W)
    img = W.array(W.image("x", rows, 1))
    k = _direction(W, "parallel", 0, 0)
    model = W.ac.add_cti(image=img, **k)
    for r in range(rows):
        W.assume(model[r, 0] == img[r, 0])
    got = W.ac.remove_cti(image=img, iterations=iterations, **k)
    for r in range(rows):
        W.eq(got[r, 0], img[r, 0], "left unchanged")


def order(W, rows):
    """Arguments by position."""
    cl.patch(W)
    img = W.array(W.image("x", rows, 1))
    k = _direction(W, "parallel", 0, 0)
    a = W.ac.remove_cti(img, 1, k["parallel_ccd"], k["parallel_roe"], k["parallel_traps"], 0, 0)
    b = W.ac.remove_cti(image=img, iterations=1, **k)
    c = W.ac.add_cti(img, k["parallel_ccd"], k["parallel_roe"], k["parallel_traps"], 0, 0)
    d = W.ac.add_cti(image=img, **k)
    for r in range(rows):
        W.eq(a[r, 0], b[r, 0], "removal, arguments by position")
        W.eq(c[r, 0], d[r, 0], "adding, arguments by position")


def configs(tier):
    q = tier == "quick"
    out = []
    p, s = dict(express=0, offset=0), dict(express=1, offset=1)
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        out.append(("iterate", dict(rows=2, cols=1, iterations=n, par=p)))
        if n <= 2:
            out.append(("iterate", dict(rows=3, cols=1, iterations=n, par=dict(express=1, offset=1))))
            out.append(("iterate", dict(rows=2, cols=2, iterations=n, ser=s)))
            out.append(("iterate", dict(rows=2, cols=2, iterations=n, par=p, ser=s)))
            out.append(("iterate", dict(rows=2, cols=2, iterations=n, par=dict(express=1, offset=0, first=False),
                                        ser=dict(express=0, offset=2, between=False))))
    for n in (1, 2):
        out.append(("iterate", dict(rows=3, cols=2, iterations=n, par=dict(express=2, offset=1), rwin=(1, 3))))
        out.append(("iterate", dict(rows=2, cols=3, iterations=n, par=p, ser=dict(express=2, offset=0), cwin=(1, 2))))
        out.append(("iterate", dict(rows=3, cols=2, iterations=n, par=p, ser=p, rwin=(0, 2), cwin=(1, 2))))
        out.append(("iterate", dict(rows=3, cols=1, iterations=n, par=p, time=(0, 2))))
        out.append(("iterate", dict(rows=3, cols=1, iterations=n, par=s, ser=p, time=(1, 3))))
        out.append(("iterate", dict(rows=2, cols=1, iterations=n, par=dict(express=0, offset=0, mode="injection"))))
        out.append(("iterate", dict(rows=2, cols=1, iterations=n, par=dict(express=0, offset=0, phases=2, force=False))))
        out.append(("iterate", dict(rows=2, cols=2, iterations=n)))
        out.append(("fixed", dict(rows=2, iterations=n)))
    out.append(("order", dict(rows=2)))
    return out
