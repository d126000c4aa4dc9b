"""Species add up and their order does not matter."""
import tm

BOUNDS = ("One step of two managers that must agree, from the same arbitrary state of up to 2 levels (thorough: 3): one species "
          "split in two, two (three) species in every order; up to 3 phases and 2 trap groups with any densities and shares.")
REACH = {}


def _copy(W, a, b, K, cols):
    """Puts a's levels into b, species by the map cols (b's species -> a's)."""
    for k in range(K):
        b.watermarks[k, 0] = a.watermarks[k, 0]
        for j, i in enumerate(cols):
            b.watermarks[k, 1 + j] = a.watermarks[k, 1 + i]


def _agree(W, kind, K, S, a, b, cols, tau, P):
    n = W.real("n", 0, nice=(0, 50))
    dt = tm.dwell(W, P)
    F = W.fill_function("F")
    W.eq(a.n_trapped_electrons_from_watermarks(a.watermarks), b.n_trapped_electrons_from_watermarks(b.watermarks),
         "trapped electrons before")
    if P:
        P.also(b, cols)
    ra = a.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    rb = b.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=dt)
    W.eq(ra, rb, "electrons exchanged")
    W.eq(a.n_trapped_electrons_from_watermarks(a.watermarks), b.n_trapped_electrons_from_watermarks(b.watermarks),
         "trapped electrons after")
    x = W.real("x", 0, 1, hi_open=True)
    la, lb = tm.levels(W, kind, a, S, tau), tm.levels(W, kind, b, len(cols), [tau[i] for i in cols])
    for j, i in enumerate(cols):
        W.eq(tm.fill_at(W, lb, x, j), tm.fill_at(W, la, x, i), "occupancy")


def _trap(W, kind, d, t, c):
    if kind == "slow":
        return W.ac.Trap(density=d, release_timescale=t, capture_timescale=c)
    return W.ac.TrapInstantCapture(density=d, release_timescale=t)


def split(W, kind, K, S=1, given=None):
    """Species 0 as two of the same kind whose densities add up."""
    tr, ds, ts, cs = tm.traps(W, kind, S)
    share = W.real("share", 0, 1)
    T = (K + 1) // tm.per_transfer(kind) + 1
    a = tm.manager(W, kind, tr, T)
    c = cs or [None] * S
    parts = [_trap(W, kind, ds[0] * share, ts[0], c[0]), _trap(W, kind, ds[0] * (1 - share), ts[0], c[0])]
    b = tm.manager(W, kind, parts + [_trap(W, kind, ds[i], ts[i], c[i]) for i in range(1, S)], T)
    pre = tm.state(W, kind, a, K, S, ts)
    cols = [0, 0] + list(range(1, S))
    _copy(W, a, b, K, cols)
    P = tm.Contract(W, a, S, pre, given=given) if kind == "slow" else None
    _agree(W, kind, K, S, a, b, cols, ts, P)


def order(W, kind, K, cols, given=None, real=None, dens="sym"):
    S = len(cols)
    tau, cap = real or ("sym", None)
    tr, ds, ts, cs = tm.traps(W, kind, S, dens, tau, cap=cap)
    T = (K + 1) // tm.per_transfer(kind) + 1
    a = tm.manager(W, kind, tr, T)
    b = tm.manager(W, kind, [tr[i] for i in cols], T)
    pre = tm.state(W, kind, a, K, S, ts, fast=bool(real))
    _copy(W, a, b, K, cols)
    P = tm.Contract(W, a, S, pre, fast=bool(real), given=given, real=real) if kind == "slow" else None
    _agree(W, kind, K, S, a, b, cols, ts, P)


def phases(W, n_phases, groups, wrap="lists"):
    """The traps of each phase: the same species at that phase's share."""
    ac = W.ac
    fr = [W.real("fr%d" % p, 0, 1) for p in range(n_phases)]
    ds, gs = [], []
    kinds = {"i": "TrapManagerInstantCapture", "s": "TrapManager", "c": "TrapManagerTrackTime", "u": "TrapManagerTrackTime",
             "j": "TrapManagerInstantCapture"}
    U = type("UserContinuum", (ac.TrapLifetimeContinuumAbstract,), {})
    J = type("UserInstant", (ac.TrapInstantCapture,), {})
    for g, spec in enumerate(groups):
        grp, dg = [], []
        for s, k in enumerate(spec):
            d = W.real("d%d_%d" % (g, s), 0, nice=(1, 20))
            dg.append(d)
            if k == "c":
                t = ac.TrapLogNormalLifetimeContinuum(density=d, release_timescale_mu=1.0 + s, release_timescale_sigma=0.5)
            elif k == "u":
                t = U(density=d, distribution_of_traps_with_lifetime=None, release_timescale_mu=1.0 + s,
                      release_timescale_sigma=0.5)
            elif k == "j":
                t = J(density=d, release_timescale=1.0 + s)
            else:
                t = _trap(W, "slow" if k == "s" else "instant", d, 1.0 + s, 0.5 + s)
            grp.append(t)
        gs.append(grp)
        ds.append(dg)
    traps = gs if wrap == "lists" else gs[0] if wrap == "list" else gs[0][0]
    ccd = ac.CCD(fraction_of_traps_per_phase=fr, full_well_depth=[1e4] * n_phases, well_fill_power=[1.0] * n_phases)
    T = 3
    all_ = ac.AllTrapManager(traps=traps, max_n_transfers=T, ccd=ccd)
    W.check(len(all_) == n_phases, "one set of managers per phase")
    tmod = W.module("trap_managers")
    seen = []
    for p in range(n_phases):
        W.check(len(all_[p]) == len(groups), "one manager per group")
        for g, spec in enumerate(groups):
            m = all_[p][g]
            W.check(type(m) is getattr(tmod, kinds[spec[0]]), "the kind of traps decides the manager")
            W.check(m.n_trap_species == len(spec), "every species")
            W.check(not any(m is x for x in seen), "managers are separate")
            seen.append(m)
            for s in range(len(spec)):
                W.eq(m.n_traps_per_pixel[s], ds[g][s] * fr[p], "density scaled by the phase's share")
                W.eq(m.traps[s].release_timescale if spec[s] not in "cu" else m.traps[s].release_timescale_mu, 1.0 + s,
                     "timescale")
                W.eq(gs[g][s].density, ds[g][s], "the given traps keep their density")
            W.eq(m.n_trapped_electrons_from_watermarks(m.watermarks), 0, "starts empty")
    # filling the traps of one phase and group leaves the others alone
    p = W.int("p", 0, n_phases - 1, force=True)
    g = W.int("g", 0, len(groups) - 1, force=True)
    m = all_[p][g]
    m.watermarks[0, 0] = v = W.real("v", 0, 1, lo_open=True)
    held = 0.0
    for s, k in enumerate(groups[g]):
        m.watermarks[0, 1 + s] = 0.0 if k in "cu" else 1.0
        held = held + v * ds[g][s] * fr[p]
    if groups[g][0] not in "cu":
        W.eq(all_.n_electrons_trapped_currently, held, "electrons trapped")
    for q in range(n_phases):
        for h in range(len(groups)):
            if (q, h) != (p, g):
                W.eq(all_[q][h].watermarks[0, 0], 0, "other traps stay empty")


def configs(tier):
    q = tier == "quick"
    out = []
    A, B = (0.25, 0.875, 0.5), (0.5, 0.75, 0.625)
    for kind in tm.KINDS:
        for K in range(0, 3 if q else 4):
            opts = dict(cost=5 * K, budget=600 if q else 3000)
            g = [A] if kind == "slow" and K > 1 else None
            out.append(("split", dict(kind=kind, K=K, **(dict(given=g) if g else {})), opts))
            g = [A, B] if kind == "slow" and K else None
            if K < (2 if q else 3):
                out.append(("order", dict(kind=kind, K=K, cols=(1, 0), **(dict(given=g) if g else {})), opts))
    out.append(("split", dict(kind="instant", K=1, S=2)))
    # with and without capture delay in one group
    for K in (1,) if q else (1, 2):
        out.append(("order", dict(kind="slow", K=K, cols=(1, 0), dens=[7.0, 3.0], real=([2.0, 3.0], [0.5, 0])),
                    dict(cost=5 * K, budget=600 if q else 3000)))
    for cols in ((1, 2, 0),) if q else ((1, 2, 0), (2, 1, 0), (0, 2, 1), (1, 0, 2), (2, 0, 1)):
        out.append(("order", dict(kind="instant", K=1, cols=cols), dict(cost=5)))
    for n in (1, 2, 3):
        for groups in ("i",), ("s", "i"), ("ii", "ss", "c"), ("cc",), ("u", "j"):
            out.append(("phases", dict(n_phases=n, groups=groups)))
    out.append(("phases", dict(n_phases=2, groups=("ii",), wrap="list")))
    out.append(("phases", dict(n_phases=2, groups=("s",), wrap="bare")))
    return out
