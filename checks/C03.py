"""Time windows."""
import cl
import ex

BOUNDS = ("Matrices: 1 to 4 rows (thorough: 7; single ranges 40 and 60 rows), offsets 0 to 2 (4), all express settings, modes and windows, any integer bounds of the "
          "time ranges. Images: 2 to 3 rows (4) by 1 to 2 columns, offset 0 to 1 (2), every split point, any charge and any "
          "trap response.")
OUTSIDE = "Images: readout with several phases (charge past the last row is discarded between calls)."
REACH = {"matrices": ["split", "one"]}


def _roe(W, kind, dtype, empty):
    dt = dict(int=W.INT, float=W.FLOAT)[dtype]
    if kind == "injection":
        return W.ac.ROEChargeInjection(express_matrix_dtype=dt)
    return W.ac.ROE(empty_traps_for_first_transfers=empty, express_matrix_dtype=dt)


def matrices(W, n, dtype, empty, kind="roe", top_offset=2):
    roe = _roe(W, kind, dtype, empty)
    offset = W.int("offset", 0, top_offset, force=True)
    express = W.int("express", 0, n + top_offset, force=True)
    W.assume(express <= n + offset)
    a = W.int("a", 0, n - 1, force=True)
    pixels = W.range(a, n)
    k = dict(express=express, offset=offset)
    full, fmon = ex.matrices(W, roe, pixels, **k)
    T = n + offset
    cuts = [0, W.int("t1", 1, T), W.int("t2", 1, T), T]
    W.assume(cuts[1] <= cuts[2])
    parts = []
    for lo, hi in zip(cuts, cuts[1:]):
        if W.fork(lo < hi):
            m, mon = ex.matrices(W, roe, pixels, time_window_range=W.range(lo, hi), **k)
            W.check(m.shape == full.shape, "same passes")
            for e in range(m.shape[0]):
                for r in range(m.shape[1]):
                    W.check(bool(mon[e, r]) == bool(fmon[e, r]), "traps are monitored as without time range")
            parts.append((lo, hi, m))
    W.reach("split" if len(parts) > 1 else "one")
    for r in range(full.shape[1]):
        done = 0.0
        acc = [0.0] * len(parts)
        for e in range(full.shape[0]):
            done = done + full[e, r]
            tot = 0.0
            for i, (lo, hi, m) in enumerate(parts):
                W.check(m[e, r] >= 0, "multipliers are not negative")
                acc[i] = acc[i] + m[e, r]
                tot = tot + m[e, r]
                # transfers done in this range once 'done' transfers are made
                want = W.smin(W.smax(done - lo, 0), hi - lo)
                W.eq(acc[i], want, "the transfers made in the range of time")
            W.eq(tot, full[e, r], "ranges add up")


def inside(W, n, dtype, empty, kind="roe"):
    """One range anywhere."""
    roe = _roe(W, kind, dtype, empty)
    if kind == "injection" and W.fork(W.int("own", 0, 1) == 1):
        roe.n_pixel_transfers = W.int("n_transfers", 1, 2 * n + 2, force=True)
    offset = W.int("offset", 0, 1, force=True)
    express = W.int("express", 0, n, force=True)
    lo, hi = W.int("lo", 0, 1000), W.int("hi", 1, 1001)
    W.assume(lo < hi)
    k = dict(express=express, offset=offset)
    full, fmon = ex.matrices(W, roe, n, **k)
    m, mon = ex.matrices(W, roe, n, time_window_range=W.range(lo, hi), **k)
    for r in range(n):
        done, acc = 0.0, 0.0
        for e in range(full.shape[0]):
            done = done + full[e, r]
            acc = acc + m[e, r]
            W.eq(acc, W.smin(W.smax(done - lo, 0), hi - lo), "the transfers made in the range of time")
            W.check(m[e, r] >= 0, "multipliers are not negative")


def large(W, n, dtype, empty, low, high, offset, kind="roe"):
    """As many rows as real devices need for the multipliers to be far from one."""
    roe = _roe(W, kind, dtype, empty)
    express = W.int("express", low, high, force=True)
    lo = W.int("lo", 0, n + offset - 1)
    lo = (lo // 7 * 7 + 3).__index__()
    hi = W.int("hi", 1, n + offset)
    W.assume(hi > lo)
    hi = W.fork(hi == lo + 1) and lo + 1 or W.fork(hi == lo + 5) and lo + 5 or n + offset
    k = dict(express=express, offset=offset)
    full, fmon = ex.matrices(W, roe, n, **k)
    m, mon = ex.matrices(W, roe, n, time_window_range=W.range(lo, hi), **k)
    for r in range(n):
        done, acc = 0.0, 0.0
        for e in range(full.shape[0]):
            done = done + full[e, r]
            acc = acc + m[e, r]
            W.eq(acc, W.smin(W.smax(done - lo, 0), hi - lo), "the transfers made in the range of time")
            W.check(m[e, r] >= 0, "multipliers are not negative")
            W.check(bool(mon[e, r]) == bool(fmon[e, r]), "traps are monitored as without time range")


def images(W, rows, cols, offset, window, dtype="float", dense=False, parts=2):
    cl.patch(W)
    ac = W.ac
    img = W.array(W.image("x", rows, cols))
    ccd = cl.ccd(W, 1)
    roe = ac.ROE(dwell_times=[1.0], express_matrix_dtype=dict(int=W.INT, float=W.FLOAT)[dtype])
    tr = [cl.trap(W, 1.0)] + ([cl.trap(W, 2.0)] if dense else [])
    k = dict(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=tr, parallel_offset=offset)
    if window:
        k["parallel_window_range"] = W.range(1, rows)
    want = ac.add_cti(image=img, **k)
    T = rows + offset
    cuts = [0]
    for i in range(parts - 1):
        cuts.append(W.int("t%d" % i, cuts[-1] + 1, T - parts + 1 + i, force=True))
    cuts.append(T)
    got = img
    for lo, hi in zip(cuts, cuts[1:]):
        got = ac.add_cti(image=got, time_window_range=W.range(lo, hi), **k)
    W.all_eq(got, want, "in parts as in one go")
    once = ac.add_cti(image=img, time_window_range=W.range(0, T), **k)
    W.all_eq(once, want, "the whole range")


def nothing(W, rows, offset):
    """Transfers after the last are none: the image stays as it is."""
    cl.patch(W)
    img = W.array(W.image("x", rows, 1))
    lo = W.int("lo", rows + offset, rows + offset + 50)
    hi = W.int("hi", rows + offset + 1, rows + offset + 60)
    W.assume(lo < hi)
    out = W.ac.add_cti(image=img, parallel_ccd=cl.ccd(W, 1), parallel_traps=cl.trap(W), parallel_offset=offset,
                       time_window_range=W.range(lo, hi))
    W.all_eq(out, img, "no transfers in this range", 0)


def configs(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 8):
        for dtype in ("float", "int"):
            for empty in (True, False):
                out.append(("matrices", dict(n=n, dtype=dtype, empty=empty, top_offset=(2 if n <= 3 else 1) if q else 3),
                            dict(cost=n * 10)))
                if n <= 3:
                    out.append(("inside", dict(n=n, dtype=dtype, empty=empty)))
            if n <= 3:
                out.append(("matrices", dict(n=n, dtype=dtype, empty=True, kind="injection", top_offset=2)))
                out.append(("inside", dict(n=n, dtype=dtype, empty=True, kind="injection")))
    for n, low, high, offset in ((40, 2, 3, 0), (40, 19, 19, 1), (40, 40, 40, 2)) if q else (
            (40, 2, 6, 0), (40, 19, 22, 1), (60, 58, 60, 2)):
        for dtype in ("float", "int"):
            out.append(("large", dict(n=n, dtype=dtype, empty=True, low=low, high=high, offset=offset), dict(cost=20)))
        out.append(("large", dict(n=n, dtype="float", empty=False, low=low, high=high, offset=offset), dict(cost=20)))
        out.append(("large", dict(n=n, dtype="int", empty=True, low=low, high=high, offset=offset, kind="injection"), dict(cost=20)))
    for rows, cols in ((2, 1), (3, 1), (2, 2)) + (() if q else ((4, 1), (3, 2), (5, 1))):
        for offset in (0, 1) if q else (0, 1, 2):
            for window in (False, True):
                out.append(("images", dict(rows=rows, cols=cols, offset=offset, window=window)))
    out.append(("images", dict(rows=3, cols=1, offset=0, window=False, dtype="int", dense=True)))
    out.append(("images", dict(rows=3, cols=1, offset=1, window=False, parts=3)))
    for offset in (0, 2):
        out.append(("nothing", dict(rows=2, offset=offset)))
    return out
