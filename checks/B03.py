"""Continuum lifetimes are weighted means."""
import math

BOUNDS = ("Any positive distribution of lifetimes (its values at the nodes are arbitrary), integrated by an arbitrary positive "
          "quadrature of 2 nodes (thorough: 3) anywhere in the range of integration; any elapsed and dwell times, median and width.")
OUTSIDE = ("That scipy's adaptive quadrature and root finder converge is trusted (the code's own assertion checks the latter); "
           "that the log-normal distribution integrates to one is mathematics: its formula is what is checked.")
REACH = {}


def _rule(W, nodes, normal=True):
    """Nodes, weights and the values of the distribution there."""
    ts = [W.lifetime("node%d" % i) for i in range(nodes)]
    ws = [W.real("weight%d" % i, 0, lo_open=True, nice=(0.2, 2)) for i in range(nodes)]
    ps = [W.real("p%d" % i, 0, lo_open=True, nice=(0.1, 1)) for i in range(nodes)]
    mu, sigma = W.real("mu", 0, lo_open=True), W.real("sigma", 0, lo_open=True)
    # nodes of an unbounded range; a bounded one leaves out those beyond it
    def hook(f, a, b, args):
        t = 0.0
        for x, w in zip(ts, ws):
            if W.fork(x > a) and (b == math.inf or W.fork(x < b)):
                t = t + w * f(x, *args)
        return t

    W.quad(hook)

    def distribution(x, m, s):
        for t, p in zip(ts, ps):
            if x is t or (not W.symbolic and x == t):
                # its own parameters, in order
                W.eq(m, mu, "median of the distribution")
                W.eq(s, sigma, "width of the distribution")
                return p
        raise AssertionError("asked at %r" % x)

    tot = 0.0
    for w, p in zip(ws, ps):
        tot = tot + w * p
    if normal:
        if W.symbolic:
            W.assume(tot == 1)
        else:
            W.assume(abs(tot - 1) < 1e-9)
    return ts, ws, ps, mu, sigma, distribution


def _trap(W, mu, sigma, distribution, d):
    return W.module("traps").TrapLifetimeContinuumAbstract(
        density=d, distribution_of_traps_with_lifetime=distribution, release_timescale_mu=mu, release_timescale_sigma=sigma)


def mean(W, nodes):
    ts, ws, ps, mu, sigma, dist = _rule(W, nodes, False)
    tr = _trap(W, mu, sigma, dist, 2.0)
    a = W.real("elapsed", 0, nice=(0, 3))
    dt = W.real("dt", 0, nice=(0, 3))
    want = rel = 0.0
    for t, w, p in zip(ts, ws, ps):
        want = want + w * p * W.exp(-a / t)
        rel = rel + w * p * W.exp(-a / t) * (1 - W.exp(-dt / t))
    W.eq(tr.fill_fraction_from_time_elapsed(a), want, "weighted mean of the occupancies")
    W.eq(tr.electrons_released_from_time_elapsed_and_dwell_time(a, dt), rel, "weighted mean of the electrons released")


def normal(W, nodes):
    ts, ws, ps, mu, sigma, dist = _rule(W, nodes)
    d = W.real("d", 0, nice=(1, 20))
    tr = _trap(W, mu, sigma, dist, d)
    W.eq(tr.density, d, "density")
    W.eq(tr.capture_rate, math.inf, "captures at once")
    a = W.real("elapsed", 0, nice=(0, 3))
    b = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
    n = W.real("n", 0, nice=(0, 50))
    F = tr.fill_fraction_from_time_elapsed
    fa, fb, fc = F(a), F(a + b), F(b)
    W.eq(F(0.0), 1, "filled at the start")
    W.check(fa <= 1, "at most full")
    W.check(fa > 0, "never quite empty")
    W.check(fb < fa, "decreasing")
    W.eq(tr.electrons_released_from_time_elapsed_and_dwell_time(a, b) + fb, fa, "released and remaining")
    W.eq(tr.electrons_released_from_electrons_and_dwell_time(n, b) + n * fc, n, "released and remaining electrons")
    W.eq(tr.electrons_released_from_time_elapsed_and_dwell_time(a), fa - F(a + 1), "default dwell time")


def single(W):
    """All traps of one lifetime: an ordinary trap."""
    ts, ws, ps, mu, sigma, dist = _rule(W, 1)
    tr = _trap(W, mu, sigma, dist, 2.0)
    ref = W.ac.TrapInstantCapture(density=2.0, release_timescale=ts[0])
    a = W.real("elapsed", 0, nice=(0, 3))
    b = W.real("dt", 0, nice=(0.1, 3))
    n = W.real("n", 0, nice=(0, 50))
    W.eq(tr.fill_fraction_from_time_elapsed(a), ref.fill_fraction_from_time_elapsed(a), "fill fraction")
    W.eq(tr.electrons_released_from_time_elapsed_and_dwell_time(a, b),
         ref.electrons_released_from_time_elapsed_and_dwell_time(a, b), "electrons released since")
    W.eq(tr.electrons_released_from_electrons_and_dwell_time(n, b),
         ref.electrons_released_from_electrons_and_dwell_time(n, b), "electrons released")


def inverse(W, nodes):
    """The time recovered from a fill fraction is the root that was asked for."""
    ts, ws, ps, mu, sigma, dist = _rule(W, nodes)
    tr = _trap(W, mu, sigma, dist, 2.0)
    f = W.real("f", 0, 1, lo_open=True, hi_open=True, nice=(0.2, 0.9))
    found = []

    def hook(name, fun, x0, *a, **k):
        x = W.real("root", 0)
        y = fun(x)
        W.assume(y == 0)
        found.append(x)
        return W.array([x]) if name == "fsolve" else x

    W.fsolve(hook)
    x = tr.time_elapsed_from_fill_fraction(f)
    want = 0.0
    for t, w, p in zip(ts, ws, ps):
        want = want + w * p * W.exp(-x / t)
    W.eq(want, f, "fill fraction at the time found")
    if W.symbolic:
        W.eq(x, found[0], "the root itself", 0)


def lognormal(W):
    """The log-normal distribution and a trap that uses it."""
    T = W.module("traps").TrapLogNormalLifetimeContinuum
    x = W.real("x", 0, lo_open=True, nice=(0.2, 3))
    mu = W.real("mu", 0, lo_open=True, nice=(0.2, 3))
    s = W.real("sigma", 0, lo_open=True, nice=(0.2, 2))
    p = T.log_normal_distribution(x, mu, s)
    np = W.np
    u = np.log(x) - np.log(mu)
    W.eq(p * x * s * math.sqrt(2 * math.pi), W.exp(-u * u / (2 * s * s)), "formula")
    W.check(p > 0, "positive")
    W.eq(T.log_normal_distribution(mu, mu, s) * mu * s * math.sqrt(2 * math.pi), 1, "at the median")


def lognormal_trap(W, nodes):
    T = W.module("traps").TrapLogNormalLifetimeContinuum
    xs = [0.5 + 0.75 * i for i in range(nodes)]
    ws = [W.real("weight%d" % i, 0, 10, lo_open=True, nice=(0.2, 2)) for i in range(nodes)]

    def hook(f, a, b, args):
        W.check(a == 0 and b == math.inf, "every lifetime counts")
        t = 0.0
        for x, w in zip(xs, ws):
            t = t + w * f(x, *args)
        return t

    W.quad(hook)
    mu, s = 1.25, 0.5
    d = W.real("d", 0, nice=(1, 20))
    tr = T(density=d, release_timescale_mu=mu, release_timescale_sigma=s)
    W.eq(tr.density, d, "density")
    a = W.real("elapsed", 0, nice=(0, 3))
    want = 0.0
    for x, w in zip(xs, ws):
        p = math.exp(-(math.log(x) - math.log(mu)) ** 2 / (2 * s * s)) / (x * s * math.sqrt(2 * math.pi))
        want = want + w * p * W.exp(-a / x)
    W.eq(tr.fill_fraction_from_time_elapsed(a), want, "log-normal mean")


def configs(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for k in range(1, n + 1):
        out += [("mean", dict(nodes=k)), ("normal", dict(nodes=k)), ("inverse", dict(nodes=k)), ("lognormal_trap", dict(nodes=k))]
    return out + [("single", {}), ("lognormal", {})]
