"""Traps never take more than there is."""
import tm

BOUNDS = ("One trap step from an arbitrary valid state of up to 3 levels (thorough: 4) and up to 2 species (3), any cloud "
          "size, any monotonic well-filling function, any densities, lifetimes and dwell time.")
REACH = {"step": ["too few electrons"]}


def step(W, kind, S, K, dens="sym", tau="sym", fast=False):
    tr, ds, ts, cs = tm.traps(W, kind, S, dens, tau)
    T = (K + tm.per_transfer(kind) - 1) // tm.per_transfer(kind) + 1
    m = tm.manager(W, kind, tr, T)
    pre = tm.state(W, kind, m, K, S, ts, fast)
    P = tm.Contract(W, m, S, pre, fast) if kind == "slow" else None
    n = W.real("n", 0, nice=(0, 50))
    dt = tm.dwell(W, P)
    before = tm.trapped(pre, ds)
    r = m.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=W.fill_function("F"), dwell_time=dt)
    W.le(-r, n, "captures no more than the cloud holds")
    if kind == "slow":
        for v, fs in tm.levels(W, kind, m, S, ts):
            for f, d in zip(fs, ds):
                if not isinstance(v, float) or v != 0:
                    W.lemma(v >= 0, "occupied volume is not negative")
                    W.lemma(f >= 0, "occupancy is not negative")
                    W.lemma(v * f * d >= 0)
    W.le(r, before, "releases no more than the traps held")
    if W.fork(-r >= n):
        W.reach("too few electrons")


def idle(W, kind, S, K, dens="sym", tau="sym"):
    """No charge: only release; nothing trapped: nothing released."""
    tr, ds, ts, cs = tm.traps(W, kind, S, dens, tau)
    m = tm.manager(W, kind, tr, 3)
    pre = tm.state(W, kind, m, K, S, ts)
    P = tm.Contract(W, m, S, pre) if kind == "slow" else None
    dt = tm.dwell(W, P)
    F = W.fill_function("F")
    # traps that capture a released electron again at once may hold on to it
    r = m.n_electrons_released_and_captured(n_free_electrons=0.0, ccd_filling_function=F, dwell_time=dt)
    W.le(0, r, "an empty pixel only gains electrons")
    if K == 0:
        W.eq(r, 0, "empty traps release nothing")
        W.eq(m.n_trapped_electrons_from_watermarks(m.watermarks), 0, "and stay empty")


def configs(tier):
    q = tier == "quick"
    out = []
    for kind in tm.KINDS:
        for S in (1, 2) if q else (1, 2, 3):
            for K in range(0, 4 if q else 5):
                if K * S <= ((3 if kind == "slow" else 4) if q else (4 if kind == "slow" else 6)):
                    out.append(("step", dict(kind=kind, S=S, K=K), dict(cost=K * S, budget=500 if q else 3000)))
                if K * S <= 2:
                    out.append(("idle", dict(kind=kind, S=S, K=K)))
    for S, K in ((1, 0), (1, 1), (1, 2), (2, 1)):
        out.append(("step", dict(kind="slow", S=S, K=K, fast=True)))
    return out
