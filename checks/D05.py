"""Parallel first, then serial on the transposed result."""
import cl
import modes

BOUNDS = ("Images of 1 to 3 rows by 1 to 3 columns (thorough: 4), different CCDs, traps, readouts, express (0 to 2), offsets (0 to 1) and "
          "flags in the two directions, every window given as a range or a number, options left out of either direction, time windows; any image and trap response.")
REACH = {}


def _settings(W, which, express=0, offset=0, mode="roe", phases=1, dtype="float", **flags):
    """Distinct settings for a direction."""
    k = 0 if which == "parallel" else 1
    roe = modes.roe(W, mode, phases, dtype=dtype, **flags)
    roe.dwell_times = [t + 0.0625 * k for t in roe.dwell_times]
    return dict(ccd=cl.ccd(W, phases, [0.25 + 0.125 * p + 0.0625 * k for p in range(phases)], 1.0 + k), roe=roe,
                traps=cl.trap(W, 1.0 + k), express=express, offset=offset)


def _named(which, s):
    return dict(("%s_%s" % (which, k), v) for k, v in s.items())


def both(W, rows, cols, par, ser, windows=False):
    """Both at once: one after the other."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    p, s = _settings(W, "parallel", **par), _settings(W, "serial", **ser)
    win = {}
    if windows:
        a = W.int("a", 0, rows - 1, force=True)
        b = W.int("b", a + 1, rows, force=True)
        c = W.int("c", 0, cols - 1, force=True)
        d = W.int("d", c + 1, cols, force=True)
        win = dict(parallel_window_range=W.range(a, b), serial_window_range=W.range(c, d))
    add = W.ac.add_cti
    got = add(image=img, **dict(_named("parallel", p), **dict(_named("serial", s), **win)))
    first = add(image=img, **dict(_named("parallel", p), **win))
    want = add(image=first, **dict(_named("serial", s), **win))
    W.check(tuple(got.shape) == (rows, cols), "shape")
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], want[r, c], "parallel then serial")


def transposed(W, rows, cols, opts, windows=False, other=None):
    """Serial CTI: parallel CTI of the transposed image.  Settings of the
    other direction do not matter without its traps."""
    cl.patch(W)
    x = W.image("x", rows, cols)
    s = _settings(W, "serial", **opts)
    add = W.ac.add_cti
    pw, sw = None, None
    if windows:
        a = W.int("a", 0, rows - 1, force=True)
        b = W.int("b", a + 1, rows, force=True)
        c = W.int("c", 0, cols - 1, force=True)
        d = W.int("d", c + 1, cols, force=True)
        pw, sw = W.range(a, b), W.range(c, d)
    extra = {}
    if other:
        o = _settings(W, "parallel", **other)
        del o["traps"]
        extra = _named("parallel", o)
    got = add(image=W.array(x), parallel_window_range=pw, serial_window_range=sw, **dict(_named("serial", s), **extra))
    if other:
        extra = _named("serial", o)
    want = add(image=W.array([list(r) for r in zip(*x)]), parallel_window_range=sw, serial_window_range=pw,
               **dict(_named("parallel", s), **extra))
    W.check(tuple(got.shape) == (rows, cols), "shape")
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], want[c, r], "serial as parallel of the transpose")


def number(W, rows, cols, direction):
    """A window given as a number is that row or column."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    s = _named(direction, _settings(W, direction))
    r = W.int("r", 0, rows - 1, force=True)
    c = W.int("c", 0, cols - 1, force=True)
    add = W.ac.add_cti
    a = add(image=img, parallel_window_range=r, serial_window_range=c, **s)
    b = add(image=img, parallel_window_range=W.range(r, r + 1), serial_window_range=W.range(c, c + 1), **s)
    for i in range(rows):
        for j in range(cols):
            W.eq(a[i, j], b[i, j], "window given as a number")
            if (i, j) != (r, c):
                W.eq(a[i, j], img[i, j], "only that pixel")


def sparse(W, rows, cols, direction, omit, opts, traps=True):
    """Options left out of a direction are its defaults, whatever the other
    direction is given."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    other = dict(parallel="serial", serial="parallel")[direction]
    mine, full = _settings(W, direction, **opts), _settings(W, other, **opts)
    if not traps:
        del full["traps"]
    dflt = dict(roe=W.ac.ROE(), express=0, offset=0)
    wrote = dict(mine, **dict((k, dflt[k]) for k in omit))
    for k in omit:
        del mine[k]
    add = W.ac.add_cti
    got = add(image=img, **dict(_named(direction, mine), **_named(other, full)))
    want = img
    for d, k in (("parallel", wrote if direction == "parallel" else full), ("serial", wrote if direction == "serial" else full)):
        if "traps" in k:
            want = add(image=want, **_named(d, k))
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], want[r, c], "options left out of one direction")


def defaults(W, rows, cols, direction):
    """Defaults written out."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    ccd, tr = cl.ccd(W, 1), cl.trap(W)
    add = W.ac.add_cti
    a = add(image=img, **{direction + "_ccd": ccd, direction + "_traps": tr})
    k = {}
    for d in ("parallel", "serial"):
        k.update({d + "_roe": W.ac.ROE(), d + "_express": 0, d + "_offset": 0})
    b = add(image=img, parallel_window_range=W.range(rows), serial_window_range=W.range(cols),
            time_window_range=W.range(rows), **dict(k, **{direction + "_ccd": ccd, direction + "_traps": tr}))
    for r in range(rows):
        for c in range(cols):
            W.eq(a[r, c], b[r, c], "defaults")


def timed(W, rows, cols, offset, serial_express=0, windows=False):
    """With a time window, serial clocking acts on the rows that reach the
    readout register within it; consecutive windows cover each row once."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    s = _named("serial", _settings(W, "serial", express=serial_express))
    T = rows + offset
    t = W.int("t", 1, T - 1, force=True)
    add = W.ac.add_cti
    pw = None
    lo, hi = 0, rows
    if windows:
        lo = W.int("lo", 0, rows - 1, force=True)
        hi = W.int("hi", lo + 1, rows, force=True)
        pw = W.range(lo, hi)
    kw = dict(s, parallel_offset=offset, parallel_window_range=pw)
    one = add(image=img, time_window_range=W.range(0, t), **kw)
    two = add(image=one, time_window_range=W.range(t, T), **kw)
    want = add(image=img, **kw)
    for r in range(rows):
        for c in range(cols):
            W.eq(one[r, c], want[r, c] if lo <= r < hi and r + offset < t else img[r, c], "rows read out in the first window")
            W.eq(two[r, c], want[r, c], "every row once")


def configs(tier):
    q = tier == "quick"
    out = []
    plain, alt = dict(), dict(express=1, offset=1)
    for rows, cols in ((1, 2), (2, 1), (2, 2), (3, 2), (2, 3)) + (() if q else ((3, 3), (4, 2), (2, 4))):
        for par, ser in ((plain, plain), (alt, plain), (plain, alt), (dict(express=2), dict(express=1)),
                         (dict(first=False, express=2), dict(between=False)), (dict(mode="injection"), plain),
                         (plain, dict(mode="injection", offset=1)), (dict(dtype="int", express=1), plain)):
            if rows * cols <= 6 or not q:
                out.append(("both", dict(rows=rows, cols=cols, par=par, ser=ser)))
        for opts in (plain, alt, dict(express=2, first=False), dict(mode="injection"), dict(between=False)):
            out.append(("transposed", dict(rows=rows, cols=cols, opts=opts)))
    out.append(("both", dict(rows=2, cols=2, par=dict(phases=2), ser=plain)))
    out.append(("both", dict(rows=2, cols=2, par=plain, ser=dict(phases=2, force=False))))
    out.append(("both", dict(rows=2, cols=3, par=plain, ser=dict(express=1), windows=True)))
    out.append(("both", dict(rows=3, cols=2, par=dict(express=1), ser=plain, windows=True)))
    out.append(("transposed", dict(rows=3, cols=2, opts=plain, windows=True)))
    out.append(("transposed", dict(rows=2, cols=3, opts=alt, windows=True)))
    out.append(("transposed", dict(rows=2, cols=2, opts=plain, other=dict(express=1, phases=2))))
    out.append(("transposed", dict(rows=2, cols=2, opts=dict(phases=3), other=dict(express=2, mode="injection"))))
    for direction in ("parallel", "serial"):
        out.append(("number", dict(rows=2, cols=3, direction=direction)))
        out.append(("number", dict(rows=3, cols=2, direction=direction)))
        out.append(("defaults", dict(rows=2, cols=3, direction=direction)))
        out.append(("defaults", dict(rows=3, cols=2, direction=direction)))
        for omit in (("roe",), ("express",), ("offset",), ("roe", "express", "offset")):
            for traps in (True, False):
                out.append(("sparse", dict(rows=2, cols=2, direction=direction, omit=omit, opts=alt, traps=traps)))
        out.append(("sparse", dict(rows=2, cols=2, direction=direction, omit=("roe",), opts=dict(mode="injection"))))
    for rows in (2, 3, 4):
        for offset in (0, 1, 2):
            out.append(("timed", dict(rows=rows, cols=2, offset=offset)))
    out.append(("timed", dict(rows=3, cols=2, offset=1, windows=True)))
    out.append(("timed", dict(rows=3, cols=3, offset=0, serial_express=1)))
    return out
