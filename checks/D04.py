"""Windows and offsets are parts of a bigger image."""
import cl
import modes

BOUNDS = ("Images of 1 to 4 rows (thorough: 5) by 1 to 3 columns, offsets 0 to 3, every window (of columns also every second one), express 0 to the number of rows, "
          "1 to 2 phases for windows of columns; any image and any trap response that leaves empty traps without charge empty.")
OUTSIDE = ("Offsets with express equal to or above the number of rows but below rows plus offset (approximated differently), traps "
           "that are not emptied between passes.")
REACH = {}


def _window(W, a, b, step=1):
    """Windows of one row or column other than the first are given as a number."""
    return a if b == a + 1 and a > 0 else W.range(a, b, step)


def _parallel(W, img, mode, phases, express=0, offset=0, rows=None, cols=None, dtype="float", first=True, between=True, force=True):
    return W.ac.add_cti(image=img, parallel_ccd=cl.ccd(W, phases), parallel_roe=modes.roe(W, mode, phases, first, between, force, dtype),
                        parallel_traps=cl.trap(W), parallel_express=express, parallel_offset=offset,
                        parallel_window_range=rows, serial_window_range=cols)


def _serial(W, img, mode, phases, express=0, offset=0, rows=None, cols=None, dtype="float", first=True, between=True, force=True):
    return W.ac.add_cti(image=img, serial_ccd=cl.ccd(W, phases), serial_roe=modes.roe(W, mode, phases, first, between, force, dtype),
                        serial_traps=cl.trap(W), serial_express=express, serial_offset=offset,
                        parallel_window_range=rows, serial_window_range=cols)


def offset(W, rows, cols, offset, express, serial=False, dtype="float", mode="roe"):
    """An offset is as many empty rows before the image."""
    cl.patch(W, empty_still=True)
    x = W.image("x", rows, cols)
    go = _serial if serial else _parallel
    a = go(W, W.array(x), mode, 1, express, offset, dtype=dtype)
    if serial:
        big = [[0.0] * offset + r for r in x]
        b = go(W, W.array(big), mode, 1, express, 0, dtype=dtype)[:, offset:]
    else:
        big = [[0.0] * cols for _ in range(offset)] + x
        b = go(W, W.array(big), mode, 1, express, 0, dtype=dtype)[offset:, :]
    W.check(tuple(a.shape) == tuple(b.shape), "the rows that are kept")
    for r in range(rows):
        for c in range(cols):
            W.eq(a[r, c], b[r, c], "offset as empty rows")


def columns(W, mode, rows, cols, phases=1, serial=False, step=1, **k):
    """A window of columns: what they give in the full image."""
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    n = rows if serial else cols
    a = W.int("a", 0, n - 1, force=True)
    b = W.int("b", a + 1, n, force=True)
    win = W.range(1, rows - 1) if mode == "pumping" else None
    if serial:
        full = _serial(W, img, mode, phases, **k)
        part = _serial(W, img, mode, phases, rows=_window(W, a, b, step), **k)
    else:
        full = _parallel(W, img, mode, phases, rows=win, **k)
        part = _parallel(W, img, mode, phases, rows=win, cols=_window(W, a, b, step), **k)
    for r in range(rows):
        for c in range(cols):
            if (r if serial else c) in range(a, b, step):
                W.eq(part[r, c], full[r, c], "inside the window")
            else:
                W.eq(part[r, c], img[r, c], "outside the window")


def rows(W, rows, cols, express, offset=0, serial=False, dtype="float"):
    """A window of rows that starts after empty rows: the image up to its end."""
    cl.patch(W, empty_still=True)
    a = W.int("a", 0, rows - 1, force=True)
    b = W.int("b", a + 1, rows, force=True)
    x = W.image("x", rows, cols)
    for r in range(a):
        for c in range(cols):
            x[r][c] = 0.0
    if serial:
        x = [list(r) for r in zip(*x)]
        img = W.array(x)
        full = _serial(W, W.array([r[:b] for r in x]), "roe", 1, express, offset, dtype=dtype)
        part = _serial(W, img, "roe", 1, express, offset, cols=_window(W, a, b), dtype=dtype)
    else:
        img = W.array(x)
        full = _parallel(W, W.array(x[:b]), "roe", 1, express, offset, dtype=dtype)
        part = _parallel(W, img, "roe", 1, express, offset, rows=_window(W, a, b), dtype=dtype)
    for r in range(rows):
        for c in range(cols):
            i = (c, r) if serial else (r, c)
            W.eq(part[i], (full if a <= r < b else img)[i], "window of rows")
    if express == 0 and b < rows:
        go = _serial if serial else _parallel
        whole = go(W, img, "roe", 1, express, offset, dtype=dtype)
        for r in range(a, b):
            for c in range(cols):
                i = (c, r) if serial else (r, c)
                W.eq(part[i], whole[i], "window of the whole image")


def configs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for o in (1, 2) if q else (1, 2, 3):
            for e in range(0, n):
                cols = 1 if n > 2 else 2
                out.append(("offset", dict(rows=n, cols=cols, offset=o, express=e), dict(cost=n)))
                if n <= 2:
                    out.append(("offset", dict(rows=cols, cols=n, offset=o, express=e, serial=True)))
                if e and n <= 3:
                    out.append(("offset", dict(rows=n, cols=1, offset=o, express=e, dtype="int")))
    for serial in (False, True):
        for e in (0, 1, 2):
            out.append(("columns", dict(mode="roe", rows=3, cols=3, serial=serial, express=e)))
        out.append(("columns", dict(mode="roe", rows=3, cols=3, serial=serial, express=2, first=False)))
        out.append(("columns", dict(mode="roe", rows=2, cols=3, serial=serial, offset=1)))
        out.append(("columns", dict(mode="roe", rows=3, cols=2, serial=serial, phases=2)))
        out.append(("columns", dict(mode="injection", rows=2, cols=3, serial=serial, express=1)))
        out.append(("columns", dict(mode="roe", rows=2 + 2 * serial, cols=4 - 2 * serial, serial=serial, step=2)))
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            for e in range(0, n):
                out.append(("rows", dict(rows=n, cols=1, express=e, serial=serial), dict(cost=n)))
            out.append(("rows", dict(rows=n, cols=2 if n < 4 else 1, express=1, offset=1, serial=serial), dict(cost=n)))
            out.append(("rows", dict(rows=n, cols=1, express=1, dtype="int", serial=serial)))
    out.append(("columns", dict(mode="pumping", rows=3, cols=3, phases=1)))
    out.append(("columns", dict(mode="pumping", rows=3, cols=2, phases=2)))
    return out
