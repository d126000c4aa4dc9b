"""Trap managers in an arbitrary valid state, for the A checks."""

KINDS = ("instant", "slow", "track")


def traps(W, kind, S, dens="sym", tau="sym", stem="", cap=None):
    """S species; dens/tau: 'sym' or a list of numbers."""
    out, ds, ts, cs = [], [], [], []
    if kind == "slow" and tau == "sym" and not overridable(W):
        tau = [2.0 + s for s in range(S)]
    for s in range(S):
        d = W.real("%sd%d" % (stem, s), 0, lo_open=True, nice=(1, 20)) if dens == "sym" else dens[s]
        t = W.lifetime("%stau%d" % (stem, s)) if tau == "sym" else tau[s]
        ds.append(d)
        ts.append(t)
        if kind == "slow":
            c = cap[s] if cap else W.lifetime("%scap%d" % (stem, s)) if tau == "sym" else 0.5 * tau[s] + 0.1 * s
            cs.append(c)
            out.append(W.ac.Trap(density=d, release_timescale=t, capture_timescale=c))
        else:
            out.append(W.ac.TrapInstantCapture(density=d, release_timescale=t))
    return out, ds, ts, cs


CLASS = dict(instant="TrapManagerInstantCapture", slow="TrapManager", track="TrapManagerTrackTime")


def manager(W, kind, traps, T):
    return getattr(W.ac, CLASS[kind])(traps=traps, max_n_transfers=T)


def prime(W, m):
    """A step the manager has behind it (its traps are emptied afterwards)."""
    m.n_electrons_released_and_captured(n_free_electrons=50.0, ccd_filling_function=lambda n: 0.5, dwell_time=0.7)
    m.empty_all_traps()


def dwell(W, P=None):
    return P.dt if P else W.real("dt", 0, lo_open=True, nice=(0.1, 3))


def per_transfer(kind):
    return 2 if kind == "slow" else 1


def state(W, kind, m, K, S, tau, fast=False, stem=""):
    """Put K levels of arbitrary occupancy into manager m.
    Returns [(volume, [fill per species])]."""
    lv = []
    tot = 0.0
    for k in range(K):
        v = W.real("%sv%d" % (stem, k), 0, 1, lo_open=True, nice=(0.05, 0.3))
        tot = tot + v
        fs = []
        for s in range(S):
            if kind == "track":
                t = W.real("%st%d_%d" % (stem, k, s), 0, nice=(0, 3))
                m.watermarks[k, 1 + s] = t
                fs.append(W.exp(-t / tau[s]))
            else:
                # with finite capture rates no trap is ever exactly full
                f = W.real("%sf%d_%d" % (stem, k, s), 0, 1, hi_open=kind == "slow" and not fast, nice=(0.1, 0.9))
                m.watermarks[k, 1 + s] = f
                fs.append(f)
        m.watermarks[k, 0] = v
        lv.append((v, fs))
    if K:
        W.assume(tot <= 1)
    return lv


def levels(W, kind, m, S, tau):
    """The manager's levels as (volume, [fill]); row by row, all rows."""
    out = []
    for i in range(m.watermarks.shape[0]):
        v = m.watermarks[i, 0]
        fs = []
        for s in range(S):
            x = m.watermarks[i, 1 + s]
            if kind == "track":
                if not isinstance(v, float) or v != 0:
                    x = fill_from_time(W, x, tau[s])
                else:
                    x = 0.0
            fs.append(x)
        out.append((v, fs))
    return out


def fill_from_time(W, t, tau):
    try:
        if float(t) == float("inf"):
            return 0.0
    except Exception:
        pass
    return W.exp(-t / tau)


def trapped(lv, ds):
    tot = 0.0
    for v, fs in lv:
        for f, d in zip(fs, ds):
            tot = tot + v * f * d
    return tot


def overridable(W):
    """Do steps of slow traps ask fill_probabilities_from_dwell_time()?
    (If not, their kinetics cannot be made arbitrary and stay concrete.)"""
    m = W.ac.TrapManager(traps=[W.ac.Trap(density=5.0, release_timescale=2.0, capture_timescale=0.5)], max_n_transfers=2)
    asked = []

    def ask(*a, **k):
        asked.append(1)
        return tuple(W.array([x]) for x in (0.25, 0.875, 0.5))

    m.fill_probabilities_from_dwell_time = ask
    try:
        r = m.n_electrons_released_and_captured(n_free_electrons=30.0, ccd_filling_function=lambda n: 0.5, dwell_time=1.0)
    except (AttributeError, TypeError):
        return False
    return bool(asked) and abs(float(r) + 0.625) < 1e-9


DWELL = 1.0


def real_kinetics(tau, cap, dt):
    """Lindegren (1998): (from empty, from full, release only) per species."""
    import math

    out = []
    for t, c in zip(tau, cap):
        if c == 0:
            out.append((1.0, 1.0, math.exp(-dt / t)))
            continue
        em, ca = 1 / t, 1 / c
        g = math.exp(-(em + ca) * dt)
        out.append((ca * (1 - g) / (em + ca), (ca + em * g) / (em + ca), math.exp(-em * dt)))
    return out


class Contract(object):
    """Replaces the kinetics of slow traps by arbitrary probabilities that obey
    what B02 shows of the real ones: 0 < r < 1 (still filled without capture),
    0 <= e (filled from empty) <= f (from full) < 1, r <= f.

    self.dt is the step's dwell time.  given: numbers (e, f, r) per species.
    real: (lifetimes, capture times) the traps were made of, nothing replaced."""

    def __init__(self, W, m, S, levels, fast=False, given=None, real=None):
        self.W, self.S, self.fast, self.levels = W, S, fast, levels
        self.k = 0
        self.replaced = not real and overridable(W)
        if not self.replaced:
            self.dt = DWELL
            real = real or ([t.release_timescale for t in m.traps], [t.capture_timescale for t in m.traps])
            given = real_kinetics(real[0], real[1], self.dt)
            self.e, self.f, self.r = [[g[i] for g in given] for i in range(3)]
            return
        self.dt = W.real("dt", 0, lo_open=True, nice=(0.1, 3))
        self.e, self.f, self.r = self._draw("", given)
        m.fill_probabilities_from_dwell_time = self._call

    def _call(self, dwell_time):
        """Only the step's own dwell time has the step's probabilities."""
        W = self.W
        out = self.e, self.f, self.r
        if dwell_time is not self.dt and not W.fork(dwell_time == self.dt):
            self.k += 1
            out = self._draw("x%d_" % self.k, None)
        return tuple(W.array(x) for x in out)

    def also(self, m, cols):
        """The same kinetics in another manager, its species being cols of ours."""
        if self.replaced:
            pick = lambda p: self.W.array([p[i] for i in cols])
            m.fill_probabilities_from_dwell_time = lambda dwell_time: tuple(pick(p) for p in (self.e, self.f, self.r))

    def _draw(self, stem, given):
        W, S, fast, levels = self.W, self.S, self.fast, self.levels
        if fast:
            # capture so fast that every trap in the cloud is filled
            e, f = [1.0] * S, [1.0] * S
        elif given:
            e, f, r = [[g[i] for g in given] for i in range(3)]
        else:
            e = [W.real("%spe%d" % (stem, s), 0, 1, hi_open=True, nice=(0.2, 0.8)) for s in range(S)]
            f = [W.real("%spf%d" % (stem, s), 0, 1, hi_open=True, nice=(0.5, 0.95)) for s in range(S)]
        r = r if given else [W.real("%spr%d" % (stem, s), 0, 1, lo_open=True, hi_open=True, nice=(0.1, 0.9)) for s in range(S)]
        for a, b, c in zip(e, f, r):
            if not fast and not given:
                W.assume(a <= b)
                W.assume(c <= b)
        # what the code will need to know: no level becomes exactly full
        for _, fs in levels if not fast else ():
            for s in range(S):
                for x in (fs[s], fs[s] * r[s]):
                    W.lemma(x * f[s] + (1 - x) * e[s] < 1)
        return e, f, r


def prefix(lv):
    """Cumulative volumes."""
    out, t = [], 0.0
    for v, _ in lv:
        t = t + v
        out.append(t)
    return out


def fill_at(W, lv, x, s):
    """Occupancy of species s at depth x (forks over the level x lies in)."""
    t = 0.0
    for v, fs in lv:
        if isinstance(v, (int, float)) and v == 0:
            continue
        t = t + v
        if W.fork(x < t):
            return fs[s]
    return 0.0


def cut(W, lv, V):
    """Levels [(volume, ...)] split at depth V: the parts below and above (forks)."""
    below, above, t = [], [], 0.0
    for l in lv:
        v = l[0]
        if W.fork(t + v <= V):
            below.append(l)
        elif W.fork(V <= t):
            above.append(l)
        else:
            below.append((V - t,) + tuple(l[1:]))
            above.append((t + v - V,) + tuple(l[1:]))
        t = t + v
    return below, above


def kinetics(W, S):
    """The three probabilities solve the rate equations."""
    tr, ds, ts, cs = traps(W, "slow", S)
    m = manager(W, "slow", tr, 1)
    dt = W.real("dt", 0, nice=(0, 3))
    e, f, r = m.fill_probabilities_from_dwell_time(dwell_time=dt)
    W.check(len(e) == S and len(f) == S and len(r) == S, "one probability per species")
    for s in range(S):
        em, ca = 1 / ts[s], 1 / cs[s]
        g = W.exp(-(em + ca) * dt)
        W.eq(e[s] * (em + ca), ca * (1 - g), "filled from empty")
        W.eq(f[s] * (em + ca), ca + em * g, "filled from full")
        W.eq(r[s], W.exp(-em * dt), "still filled without capture")
