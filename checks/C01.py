"""Clock sequence."""

BOUNDS = ("1 to 16 phases (thorough: 30), all three readouts, both release modes, any dwell times; distances compared with "
          "every integer pixel.")
REACH = {"sequence": ["split"]}


def _phases(W, roe, N, steps, force, q):
    """q: any pixel.  Phase k of a pixel lies k phases towards the readout of
    the position of the pixel's own phase 0; a cloud has moved 'moved' phases."""
    used = set([0])
    W.check(len(roe.clock_sequence) == len(steps), "one entry per step")
    for s, moved in enumerate(steps):
        seq = roe.clock_sequence[s]
        W.check(len(seq) == N, "one entry per phase")
        high = [bool(p.is_high) for p in seq]
        W.check(sum(high) == 1 and high[moved % N], "one phase high, in order")
        for k in range(N):
            ph = seq[k]
            back = 1 if force and k > moved % N else 0
            to = [int(x) - back for x in ph.release_to_which_pixels]
            frac = list(ph.release_fraction_to_pixel)
            W.check(len(frac) == len(to) and len(set(to)) == len(to), "a fraction per pixel")
            W.eq(sum(frac), 1, "fractions add up to one")
            d = abs(to[0] * N - moved + k)
            dq = abs(q * N - moved + k)
            for x, f in zip(to, frac):
                W.check(abs(x * N - moved + k) == d, "equally near")
                W.eq(f, frac[0], "shared equally")
            W.check(dq >= d, "released to the nearest high phase")
            W.check(W.implies(dq == d, W.either(*[q == x for x in to])), "to all that are nearest")
            if len(to) > 1:
                W.reach("split")
            cap = int(ph.capture_from_which_pixel) - back
            if high[k]:
                W.check(cap * N == moved - k, "captured from the cloud in this phase")
            used |= set(to_ + back for to_ in to) | {cap + back}
    got = sorted(int(x) for x in roe.pixels_accessed_during_clocking)
    W.check(got == sorted(used), "pixels accessed")


def sequence(W, kind, force=True):
    top = 6
    N = W.int("n_phases", 2 if kind == "even" else 1, top, force=True)
    _one(W, kind if kind != "even" else "roe", force, N)
    if N % 2:
        W.reach("split")


def _one(W, kind, force, N):
    n_steps = 2 * N if kind == "pumping" else N
    dwell = [W.real("dwell%d" % s, 0) for s in range(n_steps)]
    if kind == "pumping":
        roe = W.ac.ROETrapPumping(dwell_times=list(dwell))
        steps = list(range(N)) + list(range(N, 0, -1))
        force = False
    else:
        cls = W.ac.ROEChargeInjection if kind == "injection" else W.ac.ROE
        roe = cls(dwell_times=list(dwell), force_release_away_from_readout=force)
        steps = list(range(N))
    W.check(roe.n_phases == N, "phases")
    W.check(roe.n_steps == n_steps, "steps")
    for a, b in zip(roe.dwell_times, dwell):
        W.eq(a, b, "dwell times", 0)
    q = W.int("q", -10 ** 9, 10 ** 9)
    _phases(W, roe, N, steps, force, q)


def many(W, kind, force, N):
    _one(W, kind, force, N)


def default(W, kind):
    cls = dict(roe=W.ac.ROE, injection=W.ac.ROEChargeInjection, pumping=W.ac.ROETrapPumping)[kind]
    roe = cls()
    N = 1
    steps = [0, 1] if kind == "pumping" else [0]
    _phases(W, roe, N, steps, kind != "pumping", W.int("q", -10 ** 9, 10 ** 9))
    t = W.real("t", 0)
    if kind != "pumping":
        W.eq(cls(dwell_times=t).dwell_times[0], t, "single dwell time", 0)
        W.check(cls(dwell_times=t).n_steps == 1, "single dwell time")
    a, b = cls(), cls()
    a.dwell_times = [t] * len(steps)
    W.eq(b.dwell_times[0], cls().dwell_times[0], "readouts are independent", 0)
    for bad in (str, "float", None, complex, bool):
        W.raises(ValueError, lambda: cls(express_matrix_dtype=bad), "multiplier type refused")


def configs(tier):
    out = []
    for kind in ("roe", "injection"):
        for force in (True, False):
            out.append(("sequence", dict(kind=kind, force=force)))
    out.append(("sequence", dict(kind="pumping")))
    for kind in ("roe", "injection", "pumping"):
        out.append(("default", dict(kind=kind)))
    for N in range(7, 17) if tier == "quick" else range(7, 31):
        for kind, force in (("roe", True), ("roe", False), ("pumping", False)):
            out.append(("many", dict(kind=kind, force=force, N=N)))
    return out
