"""The image may be of any number type and memory layout."""
import cl
import modes

BOUNDS = ("Images of 1 to 3 rows by 1 to 3 columns of any whole or real numbers (whole ones at least 0), as a fresh array, a transposed, "
          "strided, reversed or column-ordered view, or part of a larger image; both directions, express 0 to 1, offsets 0 to 1, 0 "
          "to 2 iterations of removal; any trap response.")
REACH = {}

LAYOUTS = ("plain", "transposed", "strided", "reversed", "part", "fortran")


def _lay(W, x, layout, whole):
    """The image in some layout, and the array that holds it."""
    np = W.np
    rows, cols = len(x), len(x[0])
    dtype = W.INT if whole else W.np.float64
    if layout == "plain":
        own = np.array(x, dtype=dtype)
        return own, own
    if layout == "transposed":
        own = np.array([list(r) for r in zip(*x)], dtype=dtype)
        return own.T, own
    if layout == "strided":
        own = np.array([[x[r // 2][c // 2] if r % 2 == c % 2 == 0 else 7 for c in range(2 * cols)] for r in range(2 * rows)],
                       dtype=dtype)
        return own[::2, ::2], own
    if layout == "reversed":
        own = np.array([r[::-1] for r in x[::-1]], dtype=dtype)
        return own[::-1, ::-1], own
    if layout == "part":
        own = np.array([[x[r - 1][c - 1] if 0 < r <= rows and 0 < c <= cols else 7 for c in range(cols + 2)]
                        for r in range(rows + 2)], dtype=dtype)
        return own[1:-1, 1:-1], own
    own = np.array(x, dtype=dtype)
    if not W.symbolic:
        own = np.asfortranarray(own)
    return own, own


def layout(W, rows, cols, layout, whole=False, directions=("parallel",), iterations=None, express=0, offset=0, mode="roe",
           phases=1, **flags):
    cl.patch(W)
    if whole:
        x = [[W.int("x_%d_%d" % (r, c), 0, 10 ** 6) for c in range(cols)] for r in range(rows)]
    else:
        x = W.image("x", rows, cols)
    k = {}
    for i, d in enumerate(directions):
        k.update({d + "_ccd": cl.ccd(W, phases), d + "_roe": modes.roe(W, mode, phases, **flags), d + "_traps": cl.trap(W, 1.0 + i),
                  d + "_express": express, d + "_offset": offset})
    if mode == "pumping":
        k["parallel_window_range"] = range(1, rows - 1)

    def go(img):
        if iterations is None:
            return W.ac.add_cti(image=img, **k)
        return W.ac.remove_cti(image=img, iterations=iterations, **k)

    img, own = _lay(W, x, layout, whole)
    kept = modes.rows(own)
    want = go(W.array([[v * 1.0 for v in row] for row in x]))
    got = go(img)
    W.check(tuple(got.shape) == (rows, cols), "shape")
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], want[r, c], "the same result")
    after = modes.rows(own)
    for a, b in zip(after, kept):
        for v, w in zip(a, b):
            W.eq(v, w, "the given array is left alone", 1e-9)


def configs(tier):
    q = tier == "quick"
    out = []
    both = ("parallel", "serial")
    for whole in (False, True):
        for lay in LAYOUTS:
            for directions in (("parallel",), ("serial",), both):
                for it in (None, 1) if q else (None, 0, 1, 2):
                    for rows, cols in ((2, 2),) if q else ((1, 1), (2, 2), (3, 2), (2, 3)):
                        if it == 2 and rows * cols > 4:
                            continue
                        out.append(("layout", dict(rows=rows, cols=cols, layout=lay, whole=whole, directions=directions,
                                                   iterations=it)))
            for it in (None, 1, 2):
                out.append(("layout", dict(rows=2, cols=1, layout=lay, whole=whole, express=1, offset=1, iterations=it)))
            out.append(("layout", dict(rows=3, cols=2, layout=lay, whole=whole, phases=2, express=1)))
            out.append(("layout", dict(rows=3, cols=2, layout=lay, whole=whole, mode="injection", phases=3)))
            out.append(("layout", dict(rows=3, cols=1, layout=lay, whole=whole, mode="pumping", n_pumps=2)))
            out.append(("layout", dict(rows=2, cols=2, layout=lay, whole=whole, directions=(), iterations=1)))
            out.append(("layout", dict(rows=2, cols=2, layout=lay, whole=whole, between=False, first=False, express=1)))
    return out
