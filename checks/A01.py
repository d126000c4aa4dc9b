"""Trap steps conserve charge."""
import tm

BOUNDS = ("One trap step from an arbitrary valid state of up to 4 levels (thorough: 5) and up to 2 species (3), levels x species at most 4 (6), any cloud "
          "size, any monotonic well-filling function, any densities, lifetimes and dwell time.")
REACH = {}


def step(W, kind, S, K, contract=False, dens="sym", tau="sym", fast=False):
    tr, ds, ts, cs = tm.traps(W, kind, S, dens, tau)
    T = (K + tm.per_transfer(kind) - 1) // tm.per_transfer(kind) + 1
    m = tm.manager(W, kind, tr, T)
    pre = tm.state(W, kind, m, K, S, ts, fast)
    P = tm.Contract(W, m, S, pre, fast) if contract else None
    n = W.real("n", 0, nice=(0, 50))
    dt = tm.dwell(W, P)
    F = W.fill_function("F")
    before = tm.trapped(pre, ds)
    W.eq(m.n_trapped_electrons_from_watermarks(m.watermarks), before, "trapped electrons before")
    r = m.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    after = tm.trapped(tm.levels(W, kind, m, S, ts), ds)
    W.eq(r, before - after, "net release equals change of trapped electrons")
    W.eq(m.n_trapped_electrons_from_watermarks(m.watermarks), after, "trapped electrons after")


def configs(tier):
    q = tier == "quick"
    out = []
    for kind in tm.KINDS:
        for S in (1, 2) if q else (1, 2, 3):
            for K in range(0, 5 if q else 6):
                if K * S <= (4 if q else 6):
                    out.append(("step", dict(kind=kind, S=S, K=K, contract=kind == "slow"),
                                dict(cost=K * S, budget=500 if q else 3000)))
    for S, K in ((1, 0), (1, 1), (1, 2), (2, 1)) + (() if q else ((1, 3), (2, 2))):
        out.append(("step", dict(kind="slow", S=S, K=K, contract=True, fast=True)))
    return out
