"""Trap pumping."""
import cl
import ex

BOUNDS = ("1 to 3 pixels (thorough: 4), any number of pumps (unbounded when express is given, up to 8 (12) otherwise), express "
          "0 to 5 (7), 12 and 37, both multiplier types, with and without emptying traps first. Images: 1 to 2 pumped pixels "
          "(3), 1 to 2 phases (3), up to 3 pumps, any charge and any trap response.")
REACH = {"given": ["capped", "first", "plain"]}


def _roe(W, dtype, n_pumps, empty, steps=2):
    return W.ac.ROETrapPumping(dwell_times=[0.5] * steps, n_pumps=n_pumps, empty_traps_for_first_transfers=empty,
                               express_matrix_dtype=dict(int=W.INT, float=W.FLOAT)[dtype])


def _check(W, roe, em, mon, n, N, first, passes, dtype):
    W.check(em.shape[1] == n and em.shape[0] == n * passes, "one block of passes per pixel")
    for r in range(n):
        W.eq(ex.column(em, r), N, "multipliers add up to the number of pumps")
        mine = []
        for e in range(em.shape[0]):
            x = em[e, r]
            W.check(x >= 0, "multipliers are not negative")
            W.check(W.implies(x > 0, bool(mon[e, r])), "monitored where the multiplier is not zero")
            if dtype == "int":
                W.check(ex.whole(W, x), "integer multipliers")
            if r * passes <= e < (r + 1) * passes:
                if first and e == r * passes:
                    W.eq(x, 1, "the first pump is a single one")
                elif dtype == "float":
                    W.eq(x, (N - 1) / (passes - 1) if first else N / passes, "evenly shared")
            else:
                W.eq(x, 0, "pixels are pumped one after the other", 0)
    s = roe.save_trap_states_matrix_from_express_matrix(em)
    W.check(tuple(s.shape) == tuple(em.shape), "one entry per multiplier")
    for e in range(em.shape[0]):
        for r in range(n):
            keep = r * passes <= e < (r + 1) * passes - 1
            W.check(bool(s[e, r]) == keep, "states are kept between a pixel's own passes")


def given(W, n, express, dtype, empty):
    N = express * W.int("n_pumps_div_express", 0, 10 ** 6) + W.int("n_pumps_mod_express", 0, express - 1, force=True)
    W.assume(N >= 1)
    if W.fork(N <= express):
        N = N.__index__()
        W.reach("capped")
        first, passes = False, N
    else:
        first = empty
        passes = express + 1 if first else express
        W.reach("first" if first else "plain")
    roe = _roe(W, dtype, N, empty)
    em, mon = ex.matrices(W, roe, W.range(3, 3 + n), express=express)
    _check(W, roe, em, mon, n, N, first, passes, dtype)


def every(W, n, dtype, empty, top):
    N = W.int("n_pumps", 1, top, force=True)
    roe = _roe(W, dtype, N, empty)
    em, mon = ex.matrices(W, roe, [2 * i for i in range(n)])
    _check(W, roe, em, mon, n, N, False, N, dtype)
    if n == 1:
        e2, m2 = ex.matrices(W, roe, W.int("which", 0, 5, force=True))
        W.all_eq(e2, em, "a single pixel")


def odd(W):
    n = 2 * W.int("half", 0, 4, force=True) + 1
    W.raises(Exception, lambda: W.ac.ROETrapPumping(dwell_times=[1.0] * n), "odd number of steps refused")
    roe = W.ac.ROETrapPumping(dwell_times=[1.0] * (n + 1))
    W.check(roe.n_phases == (n + 1) // 2, "half as many phases as steps")


def images(W, phases, pixels, n_pumps, express, empty=True, density=(1.0,)):
    """Each pumped pixel as if it was the only one, passes keeping their states."""
    ac = W.ac
    respond = cl.patch(W)
    rows = max(pixels) + 3
    img = W.array([[W.real("x_%d" % r, 0)] for r in range(rows)])
    ccd = cl.ccd(W, phases)
    mk = lambda: ac.ROETrapPumping(dwell_times=[0.5 + 0.25 * s for s in range(2 * phases)], n_pumps=n_pumps,
                                   empty_traps_for_first_transfers=empty)
    tr = [[cl.trap(W, d)] for d in density]
    win = W.range(pixels[0], pixels[-1] + 1) if len(pixels) == pixels[-1] - pixels[0] + 1 else list(pixels)
    k = dict(parallel_ccd=ccd, parallel_traps=tr, parallel_express=express)
    got = ac.add_cti(image=img, parallel_roe=mk(), parallel_window_range=win, **k)
    one = [[img[r, 0]] for r in range(rows)]
    for p in pixels:
        one = cl.reference(W, one, ccd, mk(), density, respond, [p], [0], express=express)
    cl.same(W, got, one, "one pixel after the other")


def columns(W, n_pumps, express):
    """The traps of another column are others."""
    ac = W.ac
    cl.patch(W)
    img = W.array(W.image("x", 4, 2))
    ccd = cl.ccd(W, 1)
    mk = lambda: ac.ROETrapPumping(dwell_times=[0.5, 0.75], n_pumps=n_pumps)
    k = dict(parallel_ccd=ccd, parallel_traps=cl.trap(W), parallel_express=express, parallel_window_range=1)
    both = ac.add_cti(image=img, parallel_roe=mk(), **k)
    for c in (0, 1):
        alone = ac.add_cti(image=img[:, c:c + 1].copy(), parallel_roe=mk(), **k)
        for r in range(4):
            W.eq(both[r, c], alone[r, 0], "columns are independent")


def configs(tier):
    q = tier == "quick"
    out = [("odd", {})]
    for dtype in ("float", "int"):
        for empty in (True, False):
            for n in range(1, 4 if q else 5):
                for express in range(1, (6 if n == 1 else 5) if q else 8):
                    out.append(("given", dict(n=n, express=express, dtype=dtype, empty=empty)))
            for express in (12, 37) if q else (12, 24, 37, 60):
                out.append(("given", dict(n=1, express=express, dtype=dtype, empty=empty), dict(cost=5)))
            for n in range(1, 4 if q else 5):
                out.append(("every", dict(n=n, dtype=dtype, empty=empty, top=8 if q else 12)))
    for phases in (1, 2) if q else (1, 2, 3):
        for pixels in ((1,), (1, 2), (1, 3)) if q else ((1,), (2,), (1, 2), (1, 3), (1, 2, 3)):
            for n_pumps, express in ((1, 0), (2, 0), (3, 1), (3, 2)):
                out.append(("images", dict(phases=phases, pixels=pixels, n_pumps=n_pumps, express=express)))
    out.append(("images", dict(phases=1, pixels=(1, 2), n_pumps=3, express=1, empty=False)))
    out.append(("images", dict(phases=1, pixels=(1, 2), n_pumps=3, express=2, empty=False, density=(1.0, 2.0))))
    out.append(("columns", dict(n_pumps=2, express=0)))
    out.append(("columns", dict(n_pumps=3, express=1)))
    return out
