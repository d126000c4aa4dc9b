"""Trap states stay valid."""
import tm

BOUNDS = ("One trap step from an arbitrary valid state of up to 4 levels (thorough: 5) and up to 2 species (3), levels x species at most 4 (6), in storage "
          "reserved for the transfers that made them plus one, any cloud, monotonic well-filling function, densities, "
          "lifetimes and dwell time; by induction every sequence of steps. Columns that keep their trap states: see D10.")
REACH = {}


def valid(W, kind, m, S, T):
    """Asserts the invariant; returns the number of levels (forks)."""
    w = m.watermarks
    W.check(w.shape[1] == 1 + S, "one column per species")
    tot, used, n = 0.0, True, 0
    for i in range(w.shape[0]):
        v = w[i, 0]
        W.check(v >= 0, "volumes are not negative")
        tot = tot + v
        if used and W.fork(v == 0):
            used = False
        if not used:
            W.eq(v, 0, "levels are contiguous", 0)
            for s in range(S):
                W.eq(w[i, 1 + s], 0, "unused levels are empty", 0)
            continue
        n += 1
        for s in range(S):
            if kind == "track":
                W.check(w[i, 1 + s] >= 0, "times are not negative")
            else:
                W.check(w[i, 1 + s] >= 0, "fill not negative")
                W.check(w[i, 1 + s] <= 1, "fill at most 1")
    W.le(tot, 1, "volumes total at most 1")
    W.check(n < w.shape[0], "a spare level is left")
    return n


def step(W, kind, S, K, contract=False, dens="sym", tau="sym", fast=False):
    tr, ds, ts, cs = tm.traps(W, kind, S, dens, tau)
    p = tm.per_transfer(kind)
    T = (K + p - 1) // p + 1
    m = tm.manager(W, kind, tr, T)
    valid(W, kind, m, S, T)
    pre = tm.state(W, kind, m, K, S, ts, fast)
    P = tm.Contract(W, m, S, pre, fast) if contract else None
    n = W.real("n", 0, nice=(0, 50))
    dt = tm.dwell(W, P)
    F = W.fill_function("F")
    m.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    k = valid(W, kind, m, S, T)
    W.check(k <= p * T, "levels within what is reserved for the transfers made")


def configs(tier):
    q = tier == "quick"
    out = []
    for kind in tm.KINDS:
        for S in (1, 2) if q else (1, 2, 3):
            for K in range(0, 5 if q else 6):
                if K * S <= (4 if q else 6):
                    out.append(("step", dict(kind=kind, S=S, K=K, contract=kind == "slow"),
                                dict(cost=K * S, budget=500 if q else 3000)))
    for S, K in ((1, 0), (1, 1), (1, 2), (2, 1)) + (() if q else ((1, 3), (2, 2))):
        out.append(("step", dict(kind="slow", S=S, K=K, contract=True, fast=True)))
    return out
