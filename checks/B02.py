"""Exponential rate laws."""
import tm

BOUNDS = ("Any dwell times, lifetimes, capture times, occupancies, electrons and elapsed times (exact reals; exponentials by their "
          "functional equation, bounds and monotonicity); 1 to 2 species (thorough: 3).")
REACH = {}


kinetics = tm.kinetics


def bounds(W):
    tr, ds, ts, cs = tm.traps(W, "slow", 1)
    m = tm.manager(W, "slow", tr, 1)
    dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    (e,), (f,), (r,) = m.fill_probabilities_from_dwell_time(dwell_time=dt)
    for x, what in ((e, "filled from empty"), (f, "filled from full"), (r, "still filled without capture")):
        W.check(x >= 0, what + ": not negative")
        W.check(x <= 1, what + ": at most one")
    em, ca = 1 / ts[0], 1 / cs[0]
    C, U = W.exp(-ca * dt), W.exp(em * dt)
    W.lemma(em * r * dt < 1 - r)
    W.lemma(1 - C < ca * dt)
    W.lemma(em * r * dt * ca < (1 - r) * ca)
    W.lemma(em * r * (1 - C) < em * r * dt * ca)
    W.check(e < f, "a full trap is more likely filled than an empty one")
    W.check(r < f, "capture keeps traps filled")
    W.check(f < 1, "some full traps release")
    W.check(e > 0, "some empty traps capture")
    W.check(r > 0, "some traps stay filled")


def start(W):
    tr, ds, ts, cs = tm.traps(W, "slow", 1)
    m = tm.manager(W, "slow", tr, 1)
    (e,), (f,), (r,) = m.fill_probabilities_from_dwell_time(dwell_time=0.0)
    W.eq(e, 0, "no time: empty stays empty")
    W.eq(f, 1, "no time: full stays full")
    W.eq(r, 1, "no time: nothing released")


def compose(W):
    """Two dwells are one of their total length."""
    tr, ds, ts, cs = tm.traps(W, "slow", 1)
    m = tm.manager(W, "slow", tr, 1)
    a = W.real("dt1", 0, nice=(0.1, 3))
    b = W.real("dt2", 0, nice=(0.1, 3))
    (e1,), (f1,), (r1,) = m.fill_probabilities_from_dwell_time(dwell_time=a)
    (e2,), (f2,), (r2,) = m.fill_probabilities_from_dwell_time(dwell_time=b)
    (e,), (f,), (r,) = m.fill_probabilities_from_dwell_time(dwell_time=a + b)
    W.eq(e1 * f2 + (1 - e1) * e2, e, "from empty")
    W.eq(f1 * f2 + (1 - f1) * e2, f, "from full")
    W.eq(r1 * r2, r, "release only")


def fast(W, cls):
    """Capture without delay."""
    d = 5.0
    t = W.lifetime("tau0")
    if cls == "Trap":
        tr = W.ac.Trap(density=d, release_timescale=t, capture_timescale=0)
        m = W.ac.TrapManager(traps=[tr], max_n_transfers=1)
    else:
        tr = W.ac.TrapInstantCapture(density=d, release_timescale=t)
        m = W.ac.TrapManagerInstantCapture(traps=[tr], max_n_transfers=1)
    dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    (e,), (f,), (r,) = m.fill_probabilities_from_dwell_time(dwell_time=dt)
    W.eq(e, 1, "captures with certainty")
    W.eq(f, 1, "stays filled")
    W.eq(r, W.exp(-dt / t), "released as without capture")


def mixed(W, caps):
    """Species with and without a capture delay in one manager."""
    ac = W.ac
    ts = [W.lifetime("tau%d" % s) for s in range(len(caps))]
    cs = [0 if c == 0 else W.lifetime("cap%d" % s) for s, c in enumerate(caps)]
    m = ac.TrapManager(traps=[ac.Trap(density=1.0, release_timescale=t, capture_timescale=c) for t, c in zip(ts, cs)],
                       max_n_transfers=1)
    dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    e, f, r = m.fill_probabilities_from_dwell_time(dwell_time=dt)
    for s, c in enumerate(caps):
        em = 1 / ts[s]
        W.eq(r[s], W.exp(-em * dt), "still filled without capture")
        if c == 0:
            W.eq(e[s], 1, "captures with certainty")
            W.eq(f[s], 1, "stays filled")
        else:
            ca = 1 / cs[s]
            g = W.exp(-(em + ca) * dt)
            W.eq(e[s] * (em + ca), ca * (1 - g), "filled from empty")
            W.eq(f[s] * (em + ca), ca + em * g, "filled from full")


def trap(W, cls, surface=False):
    """One trap species: occupancy, elapsed time and released electrons agree."""
    ac = W.ac
    t = W.lifetime("tau0")
    d = W.real("d", 0, nice=(1, 20))
    if cls == "Trap":
        c = W.lifetime("cap0")
        tr = ac.Trap(density=d, release_timescale=t, capture_timescale=c)
        W.eq(tr.capture_rate, 1 / c, "capture rate")
    else:
        tr = ac.TrapInstantCapture(density=d, release_timescale=t)
        W.eq(tr.capture_rate, float("inf"), "capture rate")
        W.eq(tr.capture_timescale, 0, "capture time")
    W.eq(tr.emission_rate, 1 / t, "emission rate")
    W.eq(tr.density, d, "density")
    a = W.real("elapsed", 0, nice=(0, 3))
    dt = W.real("dt", 0, nice=(0, 3))
    n = W.real("n", 0, nice=(0, 50))
    F = tr.fill_fraction_from_time_elapsed
    W.eq(F(a), W.exp(-a / t), "fill fraction")
    W.check(F(a) <= 1, "fill fraction at most 1")
    W.check(F(a) > 0, "fill fraction positive")
    W.eq(F(0.0), 1, "filled at the start")
    W.check(F(a + dt) <= F(a), "never refills")
    W.eq(tr.electrons_released_from_electrons_and_dwell_time(n, dt), n * (1 - W.exp(-dt / t)), "electrons released")
    W.eq(tr.electrons_released_from_electrons_and_dwell_time(n, dt) + n * F(dt), n, "released and remaining")
    W.eq(tr.electrons_released_from_time_elapsed_and_dwell_time(a, dt), F(a) - F(a + dt), "released since")
    W.eq(tr.electrons_released_from_electrons_and_dwell_time(n), n * (1 - W.exp(-1 / t)), "default dwell time")
    W.eq(tr.electrons_released_from_time_elapsed_and_dwell_time(a), F(a) - F(a + 1), "default dwell time since")


def inverse(W, cls):
    ac = W.ac
    t = W.real("tau0", 0, lo_open=True, nice=(0.5, 3))
    tr = ac.TrapInstantCapture(density=1.0, release_timescale=t)
    a = W.real("elapsed", 0, nice=(0, 3))
    f = W.real("f", 0, 1, lo_open=True, nice=(0.1, 0.9))
    W.eq(tr.time_elapsed_from_fill_fraction(tr.fill_fraction_from_time_elapsed(a)), a, "time, fill fraction, time")
    x = tr.time_elapsed_from_fill_fraction(f)
    W.check(x >= 0, "a time")
    W.eq(tr.fill_fraction_from_time_elapsed(x), f, "fill fraction, time, fill fraction")


def configs(tier):
    q = tier == "quick"
    out = [("kinetics", dict(S=S)) for S in ((1, 2) if q else (1, 2, 3))]
    for caps in ((1, 0), (0, 1)) + (() if q else ((0, 1, 0), (1, 0, 1))):
        out.append(("mixed", dict(caps=caps)))
    out += [("bounds", {}), ("start", {}), ("compose", {})]
    for cls in ("Trap", "TrapInstantCapture"):
        out += [("fast", dict(cls=cls)), ("trap", dict(cls=cls))]
    out.append(("inverse", dict(cls="TrapInstantCapture")))
    return out
