"""Lifetime tracking equals occupancy tracking."""
import tm

BOUNDS = ("One step of both kinds of manager from the same arbitrary state of up to 3 levels (thorough: 4) and up to 2 "
          "species (3); distributions of lifetimes as an arbitrary strictly decreasing survival function, up to 3 levels.")
REACH = {"agree": ["too few electrons", "enough electrons"], "survival": ["too few electrons", "enough electrons"]}


def compare(W, a, b, S, tau, label, x):
    la, lb = tm.levels(W, "track", a, S, tau), tm.levels(W, "instant", b, S, tau)
    for s in range(S):
        W.eq(tm.fill_at(W, la, x, s), tm.fill_at(W, lb, x, s), label)


def managers(W, tr, S, K, shared):
    """shared: more levels than transfers, as when columns share their traps."""
    out = []
    for kind in ("track", "instant"):
        m = tm.manager(W, kind, tr, 1 if shared else K + 1)
        if shared:
            m.watermarks = W.np.zeros((K + 2, 1 + S), dtype=W.np.float64)
        out.append(m)
    return out


def agree(W, S, K, dens="sym", tau="sym", shared=False):
    tr, ds, ts, cs = tm.traps(W, "instant", S, dens, tau)
    a, b = managers(W, tr, S, K, shared)
    tm.state(W, "track", a, K, S, ts)
    for k in range(K):
        b.watermarks[k, 0] = a.watermarks[k, 0]
        for s in range(S):
            b.watermarks[k, 1 + s] = W.exp(-a.watermarks[k, 1 + s] / ts[s])
    W.eq(a.n_trapped_electrons_from_watermarks(a.watermarks), b.n_trapped_electrons_from_watermarks(b.watermarks),
         "trapped electrons before")
    n = W.real("n", 0, nice=(0, 50))
    dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    F = W.fill_function("F")
    ra = a.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    rb = b.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    W.eq(ra, rb, "electrons exchanged")
    W.eq(a.n_trapped_electrons_from_watermarks(a.watermarks), b.n_trapped_electrons_from_watermarks(b.watermarks),
         "trapped electrons after")
    W.reach("too few electrons" if W.fork(rb <= -n) else "enough electrons")
    compare(W, a, b, S, ts, "occupancy", W.real("x", 0, 1, hi_open=True))


def parts(W, S, K, dens="sym", tau="sym", shared=False):
    """Release and capture on their own."""
    tr, ds, ts, cs = tm.traps(W, "instant", S, dens, tau)
    a, b = managers(W, tr, S, K, shared)
    tm.state(W, "track", a, K, S, ts)
    for k in range(K):
        b.watermarks[k, 0] = a.watermarks[k, 0]
        for s in range(S):
            b.watermarks[k, 1 + s] = W.exp(-a.watermarks[k, 1 + s] / ts[s])
    dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    W.eq(a.n_electrons_released(dwell_time=dt), b.n_electrons_released(dwell_time=dt), "electrons released")
    W.eq(a.n_trapped_electrons_from_watermarks(a.watermarks), b.n_trapped_electrons_from_watermarks(b.watermarks),
         "trapped electrons after release")
    n = W.real("n", 0, nice=(0, 50))
    F = W.fill_function("F")
    W.eq(a.n_electrons_captured(n, F, dwell_time=dt), b.n_electrons_captured(n, F, dwell_time=dt), "electrons captured")


def survival(W, K, S=1, dens="sym"):
    """Traps with any strictly decreasing survival function."""
    ac = W.ac
    tmod = W.module("traps")
    gs = [W.survival("G%d" % s) for s in range(S)]
    tr, ds = [], []
    for s in range(S):
        d = W.real("d%d" % s, 0, lo_open=True, nice=(1, 20)) if dens == "sym" else dens[s]
        t = tmod.TrapLifetimeContinuumAbstract(density=1.0, distribution_of_traps_with_lifetime=None,
                                               release_timescale_mu=1.0, release_timescale_sigma=1.0)
        t.density = d
        g = gs[s]
        cls = type("Survival%d" % s, (tmod.TrapLifetimeContinuumAbstract,), dict(
            fill_fraction_from_time_elapsed=lambda self, time_elapsed, g=g: g.fill(time_elapsed),
            time_elapsed_from_fill_fraction=lambda self, fill_fraction, g=g: g.time(fill_fraction)))
        t.__class__ = cls
        tr.append(t)
        ds.append(d)
    m = ac.TrapManagerTrackTime(traps=tr, max_n_transfers=K + 1)
    m.n_traps_per_pixel = ds
    pre, tot = [], 0.0
    dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    for k in range(K):
        v = W.real("v%d" % k, 0, 1, lo_open=True, nice=(0.05, 0.3))
        tot = tot + v
        m.watermarks[k, 0] = v
        ts = []
        for s in range(S):
            t = W.real("t%d_%d" % (k, s), 0, nice=(0, 3))
            m.watermarks[k, 1 + s] = t
            ts.append(t)
        pre.append((v, [g.fill(t) for g, t in zip(gs, ts)], [g.fill(t + dt) for g, t in zip(gs, ts)]))
    if K:
        W.assume(tot <= 1)
    n = W.real("n", 0, nice=(0, 50))
    F = W.fill_function("F")
    r = m.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    post = []
    for i in range(m.watermarks.shape[0]):
        v = m.watermarks[i, 0]
        none = not hasattr(v, "e") and float(v) == 0
        post.append((v, [0.0 if none else g.fill(m.watermarks[i, 1 + s]) for s, g in enumerate(gs)]))
    before = tm.trapped([(v, f) for v, f, g in pre], ds)
    mid = [(v, g) for v, f, g in pre]
    freed = before - tm.trapped(mid, ds)
    W.eq(r, before - tm.trapped(post, ds), "electrons exchanged")
    V = F(n + freed)
    depth = 0.0
    for v, fs in mid:
        depth = depth + v
    low, high = tm.cut(W, mid + [(1 - depth, [0.0] * S)], V)
    need = 0.0
    for v, fs in low:
        for f, d in zip(fs, ds):
            need = need + v * (1 - f) * d
    enough = W.fork(need <= n + freed)
    W.reach("enough electrons" if enough else "too few electrons")
    x = W.real("x", 0, 1, hi_open=True)
    inside = W.fork(x < V)
    for s in range(S):
        f = tm.fill_at(W, mid, x, s)
        got = tm.fill_at(W, post, x, s)
        if not inside:
            W.eq(got, f, "outside the cloud the survival function")
        elif enough:
            W.eq(got, 1, "inside the cloud traps are full")
        else:
            W.eq((got - f) * need, (n + freed) * (1 - f), "inside a cloud of too few electrons")


def configs(tier):
    q = tier == "quick"
    out = []
    for S in (1, 2) if q else (1, 2, 3):
        for K in range(0, 4 if q else 5):
            if K * S <= (2 if q else 4):
                out.append(("agree", dict(S=S, K=K), dict(cost=K * S, budget=600 if q else 3000)))
                out.append(("parts", dict(S=S, K=K), dict(cost=K * S, budget=600 if q else 3000)))
            if K * S <= (3 if q else 6):
                out.append(("survival", dict(K=K, S=S), dict(cost=K * S, budget=600 if q else 3000)))
    for h in ("agree", "parts"):
        out.append((h, dict(S=1, K=2, shared=True), dict(cost=2, budget=600 if q else 3000)))
    return out
