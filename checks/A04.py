"""Instant capture: full below the cloud, decayed above."""
import tm

BOUNDS = ("One trap step from an arbitrary valid state of up to 3 levels (thorough: 4) and up to 2 species (3); occupancy "
          "compared at an arbitrary depth of the pixel for every species, any cloud size, monotonic well-filling function, "
          "densities, lifetimes and dwell time.")
REACH = {"profile": ["enough electrons", "too few electrons", "inside", "outside"]}


def profile(W, kind, S, K, dens="sym", tau="sym", primed=False):
    tr, ds, ts, cs = tm.traps(W, kind, S, dens, tau)
    m = tm.manager(W, kind, tr, K + 1)
    if primed:
        tm.prime(W, m)
    pre = tm.state(W, kind, m, K, S, ts)
    n = W.real("n", 0, nice=(0, 50))
    dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    F = W.fill_function("F")
    m.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    post = tm.levels(W, kind, m, S, ts)
    # what should have happened
    decay = [W.exp(-dt / t) for t in ts]
    left = [(v, [f * g for f, g in zip(fs, decay)]) for v, fs in pre]
    avail = n + tm.trapped(pre, ds) - tm.trapped(left, ds)
    V = F(avail)
    depth = 0.0
    for v, fs in left:
        depth = depth + v
    low, high = tm.cut(W, left + [(1 - depth, [0.0] * S)], V)
    need = 0.0
    for v, fs in low:
        for f, d in zip(fs, ds):
            need = need + v * (1 - f) * d
    x = W.real("x", 0, 1, hi_open=True)
    enough = W.fork(need <= avail)
    W.reach("enough electrons" if enough else "too few electrons")
    inside = W.fork(x < V)
    W.reach("inside" if inside else "outside")
    for s in range(S):
        f = tm.fill_at(W, left, x, s)
        got = tm.fill_at(W, post, x, s)
        if not inside:
            W.eq(got, f, "outside the cloud traps decay")
        elif enough:
            W.eq(got, 1, "inside the cloud traps are full")
        else:
            W.eq((got - f) * need, avail * (1 - f), "inside a cloud of too few electrons")


def configs(tier):
    q = tier == "quick"
    out = []
    for kind in ("instant", "track"):
        for S in (1, 2) if q else (1, 2, 3):
            for K in range(0, 4 if q else 5):
                if K * S <= (3 if q else 6):
                    out.append(("profile", dict(kind=kind, S=S, K=K), dict(cost=K * S, budget=500 if q else 3000)))
        out.append(("profile", dict(kind=kind, S=2, K=1, dens=[7.0, 3.0], primed=True), dict(cost=2)))
    return out
