"""Derived quantities of trap species and random draws of their densities."""
import ex

BOUNDS = ("Ellipticity: 1 to 3 species of every kind, any densities and release timescales (logarithm, arctangent and exponential as "
          "functions).  Draws: 1 to 3 species of every kind by 1 to 9 columns of 70 to 2000 rows, any densities of which one at least "
          "is three times the other, any draw within ten deviations of its expectation.")
REACH = {}

KINDS = ("instant", "slow", "surface", "continuum")


def _trap(W, kind, density, tau, i=0):
    ac = W.ac
    if kind == "slow":
        return ac.Trap(density=density, release_timescale=tau, capture_timescale=0.5 + i, surface=i == 1)
    if kind == "surface":
        return ac.TrapInstantCapture(density=density, release_timescale=tau, surface=True)
    if kind == "continuum":
        return ac.TrapLogNormalLifetimeContinuum(density=density, release_timescale_mu=tau, release_timescale_sigma=0.5 + i)
    return ac.TrapInstantCapture(density=density, release_timescale=tau)


def _israel(W, t):
    """Israel et al. (2014): the change in ellipticity for one trap per pixel."""
    log, arctan = W.np.log(t), W.np.arctan
    return (0.05333 + 0.03357 * arctan((log - 1.628) / 0.2951)
            + 0.09901 * W.exp(-((log - 0.4553) ** 2.0) / (2 * 0.4132 ** 2.0)))


def ellipticity(W, kinds):
    ds = [W.real("d%d" % i, 0, nice=(1, 20)) for i in range(len(kinds))]
    ts = [W.real("tau%d" % i, 0, lo_open=True, nice=(0.2, 8)) for i in range(len(kinds))]
    tr = [_trap(W, k, d, t, i) for i, (k, d, t) in enumerate(zip(kinds, ds, ts))]
    total = 0.0
    for t, d, tau in zip(tr, ds, ts):
        own = d * _israel(W, tau)
        W.eq(t.delta_ellipticity, own, "one species")
        total = total + own
    name = "TrapManager" if "slow" in kinds else "TrapManagerTrackTime" if "continuum" in kinds else "TrapManagerInstantCapture"
    m = getattr(W.ac, name)(traps=tr, max_n_transfers=1)
    W.eq(m.delta_ellipticity, total, "the sum over species")
    W.check(m.n_trap_species == len(kinds), "the number of species")


def densities(W, kinds):
    """The densities of a manager are those of its species, one each."""
    n = len(kinds)
    ds = [W.real("d%d" % i, 0, nice=(1, 20)) for i in range(n)]
    new = [W.real("e%d" % i, 0, nice=(1, 20)) for i in range(n)]
    tr = [_trap(W, k, d, 2.0 + i, i) for i, (k, d) in enumerate(zip(kinds, ds))]
    name = "TrapManager" if "slow" in kinds else "TrapManagerTrackTime" if "continuum" in kinds else "TrapManagerInstantCapture"
    m = getattr(W.ac, name)(traps=tr, max_n_transfers=1)
    for want in (ds, new):
        if want is new:
            m.n_traps_per_pixel = W.array(new)
        got = m.n_traps_per_pixel
        W.check(tuple(got.shape) == (n,), "one density per species")
        for i in range(n):
            W.eq(got[i], want[i], "density of its species")
            W.eq(m.traps[i].density, want[i], "kept with its species")
    for bad in (new[1:], new + [1.0]):
        def go():
            m.n_traps_per_pixel = bad
        W.raises(ValueError, go, "as many densities as species")
        for i in range(n):
            W.eq(m.traps[i].density, new[i], "unchanged when refused")


def poisson(W, kinds, rows, cols, seed=3, order="up"):
    n = len(kinds)
    ds = [W.real("d%d" % i, 3.0, 5000, nice=(5, 50)) for i in range(n)]
    for a, b in zip(ds, ds[1:]):
        W.assume(b >= 4 * a + 20 if order == "up" else a >= 4 * b + 20)
    tr = [_trap(W, k, d, 2.0 + i, i) for i, (k, d) in enumerate(zip(kinds, ds))]
    kept = [dict(vars(t)) for t in tr]
    got = W.ac.Trap.poisson_trap(trap=tr, shape=(rows, cols), seed=seed)
    W.check(len(got) == n * cols, "one of each species per column")
    again = W.ac.Trap.poisson_trap(trap=tr, shape=(rows, cols), seed=seed)
    for j in range(cols):
        for i in range(n):
            g = got[j * n + i]
            W.check(type(g) is type(tr[i]), "of the same kind")
            W.check(all(g is not t for t in tr), "the given traps are not reused")
            for k, v in kept[i].items():
                if k == "density":
                    continue
                w = vars(g)[k]
                W.check(v is w or (v is None) == (w is None) and v == w, k + " is kept")
            total = g.density * rows
            W.check(ex.whole(W, total), "a whole number of traps")
            W.check(g.density >= 0, "not negative")
            lam = ds[i] * rows
            W.check(W.both(total >= 0.9 * lam - 200, total <= 1.1 * lam + 200), "around its own expected number")
            W.eq(again[j * n + i].density, g.density, "the same draw for the same seed")
    if n == 1 and cols >= 8:
        # expecting thousands of traps, that many columns are not all alike
        W.check(W.no(W.both(*[got[j].density == got[0].density for j in range(1, cols)])), "columns are drawn one by one")
    for t, k in zip(tr, kept):
        for name, v in k.items():
            if name == "density":
                W.eq(t.density, v, "the given traps keep their density")
            else:
                W.check(vars(t)[name] is v or vars(t)[name] == v, "the given traps are left alone")


def configs(tier):
    q = tier == "quick"
    out = []
    for k in KINDS:
        out.append(("ellipticity", dict(kinds=(k,))))
        out.append(("densities", dict(kinds=(k,))))
        out.append(("poisson", dict(kinds=(k,), rows=1000, cols=1)))
        out.append(("poisson", dict(kinds=(k,), rows=1000, cols=3)))
        out.append(("poisson", dict(kinds=(k,), rows=70, cols=2, seed=0)))
        out.append(("poisson", dict(kinds=(k,), rows=2000, cols=9, seed=5)))
        for o in ("up", "down"):
            out.append(("poisson", dict(kinds=(k, k), rows=1000, cols=2, order=o)))
        out.append(("ellipticity", dict(kinds=(k, k))))
        out.append(("densities", dict(kinds=(k, k))))
    mixes = [("slow", "instant"), ("instant", "continuum"), ("surface", "instant", "surface")]
    if not q:
        mixes += [(a, b, c) for a in KINDS for b in KINDS for c in KINDS if a != b]
    for m in mixes:
        out.append(("ellipticity", dict(kinds=m)) if not ("slow" in m and "continuum" in m) else
                   ("poisson", dict(kinds=m, rows=200, cols=3)))
        out.append(("densities", dict(kinds=m)))
        for o in ("up", "down"):
            out.append(("poisson", dict(kinds=m, rows=1000, cols=2, order=o)))
    return out
