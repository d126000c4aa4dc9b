"""Clocking with an arbitrary trap response, for the C and D checks.

patch() replaces what one set of traps does in one step by an arbitrary
deterministic function of (state, electrons, dwell time, which traps, which
well).  The state is kept in the manager's own storage so that saving,
restoring and emptying act on it."""


class Trace(list):
    pass


def patch(W, admissible=True, log=None, empty_still=False, share=1):
    """admissible: the response never drives the pixel negative, express
    multiplier included, when 'share' groups of traps do so together."""
    tm = W.module("trap_managers")
    steps = {}

    def respond(state, n, dwell, tag, mult):
        if tag not in steps:
            steps[tag] = W.stepper("T%s_%s" % tag, False)
        if empty_still and _zero(state) and _zero(n):
            return 0.0, 0.0
        r, s = steps[tag](state, n, dwell)
        if W.symbolic:
            if empty_still:
                W.assume(W.implies(W.both(state == 0, n == 0), W.both(r == 0, s == 0)))
            if admissible:
                W.assume(r * mult * share + n >= 0)
        else:
            if empty_still and state == 0 and n == 0:
                return 0.0, 0.0
            if admissible and mult and r * mult * share + n < 0:
                r = -0.5 * n / mult / share
        return r, s

    def step(self, n_free_electrons, ccd_filling_function, dwell_time=1, express_multiplier=1):
        tag = (_id(self.n_traps_per_pixel[0]), _id(ccd_filling_function(1000.0)))
        state = self.watermarks[0, 0]
        r, s = respond(state, n_free_electrons, dwell_time, tag, express_multiplier)
        self.watermarks[0, 0] = s
        if log is not None:
            log.append((tag, state, n_free_electrons, dwell_time, express_multiplier, r, s))
        return r

    for name in ("TrapManager", "TrapManagerInstantCapture", "TrapManagerTrackTime"):
        getattr(tm, name).n_electrons_released_and_captured = step
    return respond


def _zero(x):
    try:
        return not hasattr(x, "e") and float(x) == 0
    except Exception:
        return False


def _id(x):
    return ("%.6g" % float(x)).replace(".", "p").replace("-", "m").replace("+", "")


def trap(W, density=1.0, kind="instant"):
    if kind == "slow":
        return W.ac.Trap(density=density, release_timescale=1.0, capture_timescale=0.5)
    return W.ac.TrapInstantCapture(density=density, release_timescale=1.0)


def ccd(W, n_phases, fractions=None, scale=1.0):
    """A CCD whose phases can be told apart."""
    fr = fractions or [0.25 + 0.125 * p for p in range(n_phases)]
    return W.ac.CCD(fraction_of_traps_per_phase=fr,
                    full_well_depth=[scale * 1e4 * (p + 1) for p in range(n_phases)],
                    well_fill_power=[1.0] * n_phases)


def tag(W, ccd, phase, density):
    return (_id(density * ccd.fraction_of_traps_per_phase[phase]),
            _id(ccd.well_filling_function(phase)(1000.0)))


def reference(W, image, ccd, roe, groups, respond, rows, cols, express=0, offset=0, time=None, lost=None):
    """The documented clocking, on a list of lists; groups: densities of the
    trap groups.  The express and monitor matrices are those of the readout."""
    n = len(image)
    img = [list(r) for r in image]
    # charge that leaves the image stays in what lies beyond until the call ends
    beyond = {}
    em, mon = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
        pixels=rows, express=express, offset=offset, time_window_range=time)
    pumping = isinstance(roe, W.ac.ROETrapPumping)
    rows, cols = list(rows), list(cols)
    phases = [p for p, f in enumerate(ccd.fraction_of_traps_per_phase) if f > 0]
    tags = dict(((p, g), tag(W, ccd, p, d)) for p in phases for g, d in enumerate(groups))
    empty = dict((k, 0.0) for k in tags)
    carried = dict(empty)

    def get(r, c):
        return img[r][c] if 0 <= r < n else beyond.get((r, c), 0.0)

    def put(r, c, v):
        if 0 <= r < n:
            img[r][c] = v
        else:
            if lost is not None:
                lost.append(v - beyond.get((r, c), 0.0))
            beyond[(r, c)] = v

    for c in cols:
        kept = carried
        prev = None
        for e in range(em.shape[0]):
            active = [i for i in range(len(rows)) if bool(mon[e, i])]
            if pumping:
                # a pixel's passes follow each other; the next pixel's traps are empty
                pixel = active[0] if active else None
                states = dict(kept) if pixel == prev and e else dict(empty)
                prev = pixel
            else:
                states = dict(kept)
            # where the next pass starts
            start = None
            if not pumping and not roe.empty_traps_for_first_transfers and e + 1 < em.shape[0]:
                nxt = [i for i in range(len(rows)) if bool(mon[e + 1, i])]
                if nxt and nxt[0] > 0:
                    start = nxt[0] - 1
            for i in active:
                m = em[e, i]
                for s, dwell in enumerate(roe.dwell_times):
                    if not dwell > 0:
                        continue
                    for p in phases:
                        ph = roe.clock_sequence[s][p]
                        cap = rows[i] + ph.capture_from_which_pixel
                        nf = get(cap, c) if ph.is_high else 0.0
                        tot = 0.0
                        for g in range(len(groups)):
                            r, st = respond(states[p, g], nf, dwell, tags[p, g], m)
                            states[p, g] = st
                            tot = tot + r
                        if not W.symbolic and m == 0 or W.symbolic and not hasattr(m, "e") and m == 0:
                            continue
                        for q, f in zip(ph.release_to_which_pixels, ph.release_fraction_to_pixel):
                            v = get(rows[i] + int(q), c) + tot * f * m
                            if W.fork(v < 0):
                                v = 0.0
                            put(rows[i] + int(q), c, v)
                if i == start:
                    kept = dict(states)
            if pumping:
                kept = dict(states)
        carried = dict(empty) if roe.empty_traps_between_columns or pumping else dict(states)
        last = dict(states)
    return img


def same(W, got, want, label, tol=1e-6):
    W.check(got.shape == (len(want), len(want[0])), label + ": shape")
    for r in range(len(want)):
        for c in range(len(want[0])):
            W.eq(got[r, c], want[r][c], "%s[%d,%d]" % (label, r, c), tol)
