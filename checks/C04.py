"""Charge injection."""
import cl
import ex

BOUNDS = ("1 to 4 rows (thorough: 7), offsets 0 to 2 (4), express 0 to 5 (7), 12 and 37, windows, both multiplier types, any configured number "
          "of transfers (unbounded when express is given; up to 6 (9) otherwise), sequences of two images. Images: 2 rows (3), any charge and "
          "trap response.")
REACH = {"given": ["capped", "shared"]}


def _sums(W, em, mon, n, total, dtype, passes=None):
    W.check(em.shape[1] == n, "one column per row")
    for r in range(n):
        W.eq(ex.column(em, r), total, "every row makes all transfers")
        for e in range(em.shape[0]):
            x = em[e, r]
            W.check(x >= 0, "multipliers are not negative")
            W.check(W.implies(x > 0, bool(mon[e, r])), "monitored where the multiplier is not zero")
            W.eq(x, em[e, 0], "all rows alike")
            if dtype == "int":
                W.check(ex.whole(W, x), "integer multipliers")
    if passes is not None:
        W.check(em.shape[0] == passes, "number of passes")


def _roe(W, dtype, n_transfers, **k):
    return W.ac.ROEChargeInjection(n_pixel_transfers=n_transfers,
                                   express_matrix_dtype=dict(int=W.INT, float=W.FLOAT)[dtype], **k)


def given(W, n, express, dtype):
    """Any number of transfers, a given number of passes."""
    N = W.int("n_transfers", 1, 10 ** 6)
    a = W.int("a", 0, n - 1, force=True)
    b = W.int("b", a + 1, n, force=True)
    offset = W.int("offset", 0, 3)
    if W.fork(N < express):
        N = N.__index__()
        W.reach("capped")
    else:
        W.reach("shared")
    roe = _roe(W, dtype, N)
    em, mon = ex.matrices(W, roe, W.range(a, b), express=express, offset=offset)
    _sums(W, em, mon, b - a, N, dtype, min(express, N) if isinstance(N, int) and N < express else express)


def every(W, n, dtype, top):
    """Every transfer by itself, the number given or not."""
    N = W.int("n_transfers", 1, top, force=True)
    em, mon = ex.matrices(W, _roe(W, dtype, N), n)
    _sums(W, em, mon, n, N, dtype, N)
    em, mon = ex.matrices(W, _roe(W, dtype, N), n, express=N + W.int("more", 0, 2, force=True))
    _sums(W, em, mon, n, N, dtype, N)


def default(W, dtype, top, top_offset):
    """Not given: rows plus offset of the image at hand, whatever came before."""
    roe = _roe(W, dtype, None)
    # an earlier image
    before = W.int("before", 0, top, force=True)
    if before:
        roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(pixels=before, express=1, offset=1)
    n = W.int("n", 1, top, force=True)
    offset = W.int("offset", 0, top_offset, force=True)
    express = W.int("express", 0, n + offset + 1, force=True)
    a = W.int("a", 0, n - 1, force=True)
    em, mon = ex.matrices(W, roe, W.range(a, n), express=express, offset=offset)
    k = n + offset if express == 0 else min(express, n + offset)
    _sums(W, em, mon, n - a, n + offset, dtype, k)
    if n - a > 2:
        rows = range(a, n, 2)
        last = rows[-1] + 1 + offset
        es, ms = ex.matrices(W, roe, W.range(a, n, 2), express=express, offset=offset)
        _sums(W, es, ms, len(rows), last, dtype, last if express == 0 else min(express, last))
    if not a:
        em2, mon2 = ex.matrices(W, roe, n, express=express, offset=offset)
        W.all_eq(em2, em, "number of rows or their range")
    # the readout itself still has no number of its own
    W.check(roe.n_pixel_transfers is None, "readout unchanged")


def save(W, n, dtype):
    """Traps are empty whenever a new charge starts its way."""
    roe = _roe(W, dtype, 4)
    em, mon = ex.matrices(W, roe, n, express=2)
    s = roe.save_trap_states_matrix_from_express_matrix(mon)
    W.check(tuple(s.shape) == tuple(mon.shape) and not bool(s.any()), "no states are kept between passes")


def images(W, rows, N, express, window=None, time=True):
    """Every pixel's charge meets the traps of every row: the documented clocking."""
    ac = W.ac
    respond = cl.patch(W)
    img = W.array(W.image("x", rows, 1))
    ccd = cl.ccd(W, 1)
    roe = ac.ROEChargeInjection(dwell_times=[1.0], n_pixel_transfers=N)
    pixels = W.range(*window) if window else W.range(rows)
    # the transfers all rows make, not those of the image's rows only
    k = dict(time_window_range=W.range(0, N)) if time else {}
    got = ac.add_cti(image=img, parallel_ccd=ccd, parallel_roe=roe, parallel_traps=cl.trap(W), parallel_express=express,
                     parallel_window_range=pixels, **k)
    sep = ac.ROEChargeInjection(dwell_times=[1.0], n_pixel_transfers=N)
    want = cl.reference(W, [[img[r, 0]] for r in range(rows)], ccd, sep, [1.0], respond, pixels, [0], express=express)
    cl.same(W, got, want, "charge injection")


def configs(tier):
    q = tier == "quick"
    out = []
    for dtype in ("float", "int"):
        for n in range(1, 5 if q else 8):
            for express in range(1, 6 if q else 8):
                out.append(("given", dict(n=n, express=express, dtype=dtype)))
            out.append(("every", dict(n=n, dtype=dtype, top=6 if q else 9)))
            out.append(("save", dict(n=n, dtype=dtype)))
        for express in (12, 37) if q else (12, 24, 37, 60):
            out.append(("given", dict(n=1, express=express, dtype=dtype), dict(cost=5)))
        out.append(("default", dict(dtype=dtype, top=3 if q else 5, top_offset=2 if q else 4), dict(cost=9)))
    for rows in (2,) if q else (2, 3):
        for N in (1, 2, 3):
            for express in (0, 1, 2):
                out.append(("images", dict(rows=rows, N=N, express=express)))
        out.append(("images", dict(rows=rows, N=3, express=0, window=(1, 2))))
        # the default range of time is the image's rows, so of these transfers only the first are made
        out.append(("images", dict(rows=rows, N=rows + 2, express=0, time=False)))
        out.append(("images", dict(rows=rows, N=rows, express=0, time=False)))
    return out
