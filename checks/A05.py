"""Slow capture: simultaneous capture and release."""
import tm

BOUNDS = ("One trap step from an arbitrary valid state of up to 2 levels (thorough: 3) and up to 2 species; occupancy "
          "compared at an arbitrary depth of the pixel for every species, any cloud size, monotonic well-filling function, "
          "densities and fill probabilities within what B02 shows of the real ones (2 levels, or 2 species: two sets of numbers).")
REACH = {"profile": ["enough electrons", "too few electrons", "inside", "outside", "reached by the grown cloud"]}


def profile(W, S, K, dens="sym", given=None, real=None, primed=False):
    kind = "slow"
    tau, cap = real or ("sym", None)
    tr, ds, ts, cs = tm.traps(W, kind, S, dens, tau, cap=cap)
    m = tm.manager(W, kind, tr, (K + 1) // 2 + 1)
    if primed:
        tm.prime(W, m)
    pre = tm.state(W, kind, m, K, S, ts)
    P = tm.Contract(W, m, S, pre, given=given, real=real)
    n = W.real("n", 0, nice=(0, 50))
    F = W.fill_function("F")
    m.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=F, dwell_time=P.dt)
    post = tm.levels(W, kind, m, S, ts)
    # what should have happened: cut the levels at the first cloud, release above it
    V0 = F(n)
    low, high = tm.cut(W, pre, V0)
    mid = [(v, fs, fs) for v, fs in low] + [(v, fs, [f * g for f, g in zip(fs, P.r)]) for v, fs in high]
    freed = depth = 0.0
    for v, a, b in mid:
        for f, g, d in zip(a, b, ds):
            freed = freed + v * (f - g) * d
        depth = depth + v
    n1 = n + freed
    W.lemma(freed >= 0)
    V1 = F(n1)
    W.lemma(V0 <= V1)
    # cut again at the grown cloud, capture and release below it
    low, high = tm.cut(W, mid + [(1 - depth, [0.0] * S, [0.0] * S)], V1)
    want = [(v, a, [f * x + (1 - f) * y for f, x, y in zip(b, P.f, P.e)]) for v, a, b in low] + high
    gain = 0.0
    for v, a, b in want:
        for f, g, d in zip(a, b, ds):
            gain = gain + v * (g - f) * d
    enough = W.fork(gain <= n)
    W.reach("enough electrons" if enough else "too few electrons")
    x = W.real("x", 0, 1, hi_open=True)
    if W.fork(x < V0):
        W.reach("inside")
    elif W.fork(x < V1):
        W.reach("reached by the grown cloud")
    else:
        W.reach("outside")
    for s in range(S):
        f = tm.fill_at(W, [(v, a) for v, a, b in want], x, s)
        g = tm.fill_at(W, [(v, b) for v, a, b in want], x, s)
        got = tm.fill_at(W, post, x, s)
        if enough:
            W.eq(got, g, "occupancy")
        else:
            W.eq((got - f) * gain, n * (g - f), "occupancy when electrons are too few")


kinetics = tm.kinetics


def configs(tier):
    q = tier == "quick"
    A, B = (0.25, 0.875, 0.5), (0.5, 0.75, 0.625)
    out = [("profile", dict(S=1, K=0)), ("profile", dict(S=1, K=1)), ("profile", dict(S=2, K=0)),
           ("profile", dict(S=1, K=2, dens=[7.0], given=[A]), dict(cost=9)),
           ("profile", dict(S=1, K=2, dens=[7.0], given=[B]), dict(cost=9)),
           ("profile", dict(S=2, K=1, dens=[7.0, 3.0], given=[A, B]), dict(cost=5)),
           ("profile", dict(S=2, K=1, given=[B, A]), dict(cost=8)),
           ("profile", dict(S=2, K=2, dens=[7.0, 3.0], given=[B, A]), dict(cost=10))]
    out += [("kinetics", dict(S=1)), ("kinetics", dict(S=2))]
    # real kinetics, slow and fast species together
    slow, mixed = ([4.0, 2.0], [0.5, 0.25]), ([4.0, 2.0], [0.5, 0])
    for S, K, real in ((1, 1, slow), (2, 0, mixed), (2, 1, mixed)):
        out.append(("profile", dict(S=S, K=K, dens=[7.0, 3.0][:S], real=[x[:S] for x in real], primed=True), dict(cost=5)))
    if not q:
        out += [("profile", dict(S=1, K=3, dens=[7.0], given=[A]), dict(budget=3000)),
                ("profile", dict(S=3, K=1, dens=[7.0, 3.0, 2.0], given=[A, B, A]), dict(budget=3000)),
                ("profile", dict(S=2, K=3, dens=[7.0, 3.0], given=[A, B]), dict(budget=3000))]
    return out
