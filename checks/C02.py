"""Express multipliers of ordinary readout."""
import ex

BOUNDS = ("1 to 6 rows (thorough: 9), offsets 0 to 3 (6), express 0 to rows + offset + 2; 50 rows with express 1 to 8, 24 to 26 and 48 to 50 (thorough: 24, 50 and 75 rows, every express); every window up to the last row (also every second or third row), both "
          "multiplier types, with and without emptying traps for first transfers.")
REACH = {"sums": ["window", "first", "plain"]}


def sums(W, n, dtype, empty, top_offset, express=None):
    dt = dict(int=W.INT, float=W.FLOAT)[dtype]
    offset = W.int("offset", 0, top_offset, force=True)
    if express is None:
        express = W.int("express", 0, n + top_offset + 2, force=True)
        W.assume(express <= n + offset + 2)
    roe = W.ac.ROE(dwell_times=[1], empty_traps_for_first_transfers=empty, express_matrix_dtype=dt)
    em, mon = ex.matrices(W, roe, n, express=express, offset=offset)
    W.check(em.shape[1] == n, "one column per row")
    first = empty and 0 < express < n
    for r in range(n):
        W.eq(ex.column(em, r), r + 1 + offset, "multipliers of a row add up to its transfers")
        done = False
        for e in range(em.shape[0]):
            x = em[e, r]
            W.check(x >= 0, "multipliers are not negative")
            W.check(W.implies(x > 0, mon[e, r]), "monitored where the multiplier is not zero")
            W.check(W.implies(mon[e, r], x > 0), "monitored only where the multiplier is not zero")
            if dtype == "int":
                W.check(ex.whole(W, x), "integer multipliers")
            if first and not done and x > 0:
                done = True
                W.eq(x, 1, "the first transfer is a single one")
    if first:
        W.reach("first")
        # passes as seen by rows of the image: who starts each pass
        if offset == 0:
            starts = []
            for e in range(em.shape[0]):
                rows = [r for r in range(n) if em[e, r] > 0]
                if rows:
                    starts.append(rows[0])
                    W.eq(em[e, rows[0]], 1, "traps are empty for a single transfer")
            W.check(sorted(starts) == list(range(n)), "every row starts exactly one pass")
            for r in range(n):
                mine = [e for e in range(em.shape[0]) if em[e, r] > 0]
                e0 = [e for e in range(em.shape[0])
                      if [q for q in range(n) if em[e, q] > 0][:1] == [r]]
                W.check(mine[0] == e0[0], "the first transfer comes before the others")
    else:
        W.reach("plain")
        k = express if 0 < express < n + offset else n + offset
        W.check(em.shape[0] == k, "number of passes")
    # rows are used in order within a pass: once a row takes part so do those behind it
    for e in range(em.shape[0]):
        on = [bool(mon[e, r]) for r in range(n)]
        if not first and True in on:
            W.check(all(on[on.index(True):]), "rows behind an active row are active")
    # windows of the same rows
    a = W.int("a", 0, n - 1, force=True)
    wm, wmon = ex.matrices(W, roe, W.range(a, n), express=express, offset=offset)
    W.check(wm.shape[1] == n - a and wm.shape[0] == em.shape[0], "window: shape")
    for e in range(em.shape[0]):
        for r in range(a, n):
            W.eq(wm[e, r - a], em[e, r], "window")
            W.check(bool(wmon[e, r - a]) == bool(mon[e, r]), "window: monitored")
    if a:
        W.reach("window")
    # no clipping of what repeats: calls do not affect each other
    em2, mon2 = ex.matrices(W, roe, n, express=express, offset=offset)
    W.all_eq(em2, em, "repeated call", 0)


def stepped(W, n, dtype, empty, step, top_offset):
    """Every second or third row."""
    dt = dict(int=W.INT, float=W.FLOAT)[dtype]
    a = W.int("a", 0, n - 1, force=True)
    offset = W.int("offset", 0, top_offset, force=True)
    express = W.int("express", 0, n + offset, force=True)
    roe = W.ac.ROE(dwell_times=[1], empty_traps_for_first_transfers=empty, express_matrix_dtype=dt)
    rows = range(a, n, step)
    wm, wmon = ex.matrices(W, roe, W.range(a, n, step), express=express, offset=offset)
    em, mon = ex.matrices(W, roe, rows[-1] + 1, express=express, offset=offset)
    W.check(wm.shape[1] == len(rows) and wm.shape[0] == em.shape[0], "window: shape")
    for e in range(em.shape[0]):
        for i, r in enumerate(rows):
            W.eq(wm[e, i], em[e, r], "window")
            W.check(bool(wmon[e, i]) == bool(mon[e, r]), "window: monitored")


def large(W, n, dtype, empty, low, high, top_offset):
    """As many rows as real devices need for the multipliers to be far from one."""
    dt = dict(int=W.INT, float=W.FLOAT)[dtype]
    offset = W.int("offset", 0, top_offset, force=True)
    express = W.int("express", low, high, force=True)
    roe = W.ac.ROE(dwell_times=[1], empty_traps_for_first_transfers=empty, express_matrix_dtype=dt)
    em, mon = ex.matrices(W, roe, n, express=express, offset=offset)
    W.check(em.shape[1] == n, "one column per row")
    for r in range(n):
        W.eq(ex.column(em, r), r + 1 + offset, "multipliers of a row add up to its transfers")
        for e in range(em.shape[0]):
            x = em[e, r]
            W.check(x >= 0, "multipliers are not negative")
            W.check(bool(mon[e, r]) == bool(x > 0), "monitored where the multiplier is not zero")
            if dtype == "int":
                W.check(ex.whole(W, x), "integer multipliers")


def huge(W, n, dtype, empty):
    """Express at least the number of transfers is the same as the default."""
    dt = dict(int=W.INT, float=W.FLOAT)[dtype]
    offset = W.int("offset", 0, 2, force=True)
    express = W.int("express", n + 2, 10 ** 6)
    W.assume(express >= n + offset)
    roe = W.ac.ROE(empty_traps_for_first_transfers=empty, express_matrix_dtype=dt)
    a, am = ex.matrices(W, roe, n, express=express, offset=offset)
    b, bm = ex.matrices(W, roe, n, express=0, offset=offset)
    c, cm = ex.matrices(W, roe, W.range(n), offset=offset)
    W.all_eq(a, b, "no more than every transfer")
    W.all_eq(c, b, "default is every transfer")
    for e in range(b.shape[0]):
        for r in range(n):
            W.eq(b[e, r], 1 if e <= r + offset else 0, "every transfer by itself")


def configs(tier):
    out = []
    top, off = (6, 3) if tier == "quick" else (9, 6)
    for n in range(1, top + 1):
        for dtype in ("float", "int"):
            for empty in (True, False):
                out.append(("sums", dict(n=n, dtype=dtype, empty=empty, top_offset=off), dict(cost=n)))
                if n <= 4:
                    out.append(("huge", dict(n=n, dtype=dtype, empty=empty)))
    for n, step in ((4, 2), (5, 2), (5, 3)):
        for dtype in ("float", "int"):
            for empty in (True, False):
                out.append(("stepped", dict(n=n, dtype=dtype, empty=empty, step=step, top_offset=1)))
    sizes = ((50, 1, 8, 1), (50, 24, 26, 0), (50, 48, 50, 0)) if tier == "quick" else tuple(
        (n, a, a + 9, 2) for n in (24, 50, 75) for a in range(1, n, 10))
    for n, low, high, off in sizes:
        for dtype in ("float", "int"):
            for empty in (True, False):
                out.append(("large", dict(n=n, dtype=dtype, empty=empty, low=low, high=high, top_offset=off),
                            dict(cost=20)))
    return out
