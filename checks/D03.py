"""CTI acts only where it should."""
import cl
import modes

BOUNDS = ("2 to 4 rows (thorough: 5) by 1 to 3 columns, every place of a change, windows of rows and columns (also every second or third one, and with a range of time), offsets 0 to 1, express 0 "
          "to 2, 1 to 2 phases (3), all flags; any two images and any trap response.")
REACH = {}


def _window(W, a, b, step=1):
    """Windows of one row or column other than the first are given as a number."""
    return a if b == a + 1 and a > 0 else W.range(a, b, step)


def _pair(W, rows, cols, where):
    """Two images that differ in the places given."""
    x = W.image("x", rows, cols)
    y = [list(r) for r in x]
    for r, c in where:
        y[r][c] = W.real("y_%d_%d" % (r, c), 0)
    return W.array(x), W.array(y)


def _run(W, img, mode, phases, serial=False, express=0, offset=0, force=True, first=True, between=True, rows=None, cols=None,
         dtype="float", time=None):
    ccd = cl.ccd(W, phases)
    roe = modes.roe(W, mode, phases, first, between, force, dtype)
    if serial:
        return W.ac.add_cti(image=img, serial_ccd=ccd, serial_roe=roe, serial_traps=cl.trap(W), serial_express=express,
                            serial_offset=offset, serial_window_range=cols, parallel_window_range=rows,
                            time_window_range=time)
    return W.ac.add_cti(image=img, parallel_ccd=ccd, parallel_roe=roe, parallel_traps=cl.trap(W), parallel_express=express,
                        parallel_offset=offset, parallel_window_range=rows, serial_window_range=cols, time_window_range=time)


def columns(W, mode, rows, cols, phases=1, serial=False, **k):
    """A change in one column (serial: row) stays there; if traps are kept it
    can only reach later ones."""
    cl.patch(W)
    n = rows if serial else cols
    at = W.int("at", 0, n - 1, force=True)
    where = [(at, c) for c in range(cols)] if serial else [(r, at) for r in range(rows)]
    a, b = _pair(W, rows, cols, where)
    win = range(1, rows - 1) if mode == "pumping" else None
    ra = _run(W, a, mode, phases, serial, rows=win, **k)
    rb = _run(W, b, mode, phases, serial, rows=win, **k)
    for r in range(rows):
        for c in range(cols):
            i = r if serial else c
            if i < at or (i != at and k.get("between", True)):
                W.eq(ra[r, c], rb[r, c], "another column does not notice")


def causal(W, mode, rows, express=0, offset=0, serial=False, **k):
    """Single-phase readout: only pixels nearer the readout matter."""
    cl.patch(W)
    at = W.int("at", 1, rows - 1, force=True)
    if serial:
        a, b = _pair(W, 1, rows, [(0, c) for c in range(at, rows)])
    else:
        a, b = _pair(W, rows, 1, [(r, 0) for r in range(at, rows)])
    ra = _run(W, a, mode, 1, serial, express=express, offset=offset, **k)
    rb = _run(W, b, mode, 1, serial, express=express, offset=offset, **k)
    for r in range(at):
        i = (0, r) if serial else (r, 0)
        W.eq(ra[i], rb[i], "pixels nearer the readout do not notice")


def windows(W, mode, rows, cols, phases=1, serial=False, steps=(1, 1), timed=False, **k):
    """Outside the windows nothing changes (with several phases: beyond the
    next pixel)."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    a = W.int("a", 0, rows - 1, force=True)
    b = W.int("b", a + 1, rows, force=True)
    c = W.int("c", 0, cols - 1, force=True)
    d = W.int("d", c + 1, cols, force=True)
    if timed:
        t = W.int("t", 0, rows - 1, force=True)
        k["time"] = W.range(t, rows)
    got = _run(W, img, mode, phases, serial, rows=_window(W, a, b, steps[0]), cols=_window(W, c, d, steps[1]), **k)
    near = 0 if phases == 1 and mode != "pumping" else 1
    for i in range(rows):
        for j in range(cols):
            ia, ja = (0, near) if serial else (near, 0)
            if not (any(abs(i - r) <= ia for r in range(a, b, steps[0])) and any(abs(j - r) <= ja for r in range(c, d, steps[1]))):
                W.eq(got[i, j], img[i, j], "outside the windows")


def configs(tier):
    q = tier == "quick"
    out = []
    flags = (dict(), dict(first=False), dict(first=False, between=False), dict(between=False))
    for serial in (False, True):
        for f in flags:
            for e in (0, 1, 2):
                out.append(("columns", dict(mode="roe", rows=2, cols=3, serial=serial, express=e, **f)))
        out.append(("columns", dict(mode="roe", rows=3, cols=2, serial=serial, phases=2, force=False)))
        out.append(("columns", dict(mode="roe", rows=2, cols=2, serial=serial, phases=2, between=False)))
        out.append(("columns", dict(mode="injection", rows=2, cols=2, serial=serial, offset=1)))
        out.append(("columns", dict(mode="roe", rows=2, cols=3, serial=serial, offset=1, dtype="int", express=1)))
    out.append(("columns", dict(mode="pumping", rows=3, cols=2, phases=1)))
    out.append(("columns", dict(mode="pumping", rows=3, cols=2, phases=2)))
    for mode in ("roe", "injection"):
        for rows in (2, 3, 4) if q else (2, 3, 4, 5):
            for e in (0, 1, 2):
                for o in (0, 1):
                    out.append(("causal", dict(mode=mode, rows=rows, express=e, offset=o), dict(cost=rows)))
            out.append(("causal", dict(mode=mode, rows=rows, express=1, serial=True)))
            if mode == "roe":
                out.append(("causal", dict(mode=mode, rows=rows, express=2, first=False)))
                out.append(("causal", dict(mode=mode, rows=rows, express=2, dtype="int", offset=1)))
    for serial in (False, True):
        for mode in ("roe", "injection"):
            for e in (0, 1):
                out.append(("windows", dict(mode=mode, rows=3, cols=2, serial=serial, express=e), dict(cost=5)))
        for mode in ("roe", "injection"):
            for rows, cols, steps in ((4, 1, (2, 1)), (1, 4, (1, 2)), (3, 3, (2, 2))):
                out.append(("windows", dict(mode=mode, rows=rows, cols=cols, serial=serial, steps=steps, express=len(mode) % 2), dict(cost=5)))
        out.append(("windows", dict(mode="roe", rows=4, cols=2, serial=serial, steps=(3, 1), phases=2)))
        out.append(("windows", dict(mode="roe", rows=4, cols=2, serial=serial, steps=(2, 1), timed=True)))
        out.append(("windows", dict(mode="roe", rows=2, cols=3, serial=serial, timed=True)))
        out.append(("windows", dict(mode="roe", rows=2, cols=3, serial=serial, offset=1), dict(cost=5)))
        out.append(("windows", dict(mode="roe", rows=4, cols=1, serial=serial, phases=2)))
        out.append(("windows", dict(mode="roe", rows=4, cols=1, serial=serial, phases=3, express=1)))
        out.append(("windows", dict(mode="roe", rows=4, cols=1, serial=serial, phases=2, force=False, express=1)))
        out.append(("windows", dict(mode="roe", rows=2, cols=2, serial=serial, express=2, first=False, between=False)))
    return out
