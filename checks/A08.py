"""Saving, restoring and emptying trap states."""
import tm

BOUNDS = ("Every sequence of 5 operations (thorough: 6) out of changing the traps in place, by a new table, growing it, saving, "
          "restoring and emptying, in an arbitrary phase and group, on 1 to 2 phases with 1 to 2 groups of 1 to 2 species; "
          "arbitrary trap states, real trap steps in sequences of up to 3.")
REACH = {"sequence": ["restored a save", "restored nothing"]}

OPS = ("fill", "rebind", "save", "restore", "empty")


def _traps(W, groups):
    ac = W.ac
    out = []
    for g, spec in enumerate(groups):
        grp = []
        for s, k in enumerate(spec):
            if k == "s":
                grp.append(ac.Trap(density=2.0 + s, release_timescale=1.0 + s, capture_timescale=0.5))
            else:
                grp.append(ac.TrapInstantCapture(density=3.0 + s, release_timescale=1.0 + s))
        out.append(grp)
    return out


def _held(model, dens):
    t = 0.0
    for k, lv in model.items():
        for v, fs in lv:
            for f, d in zip(fs, dens[k]):
                t = t + v * f * d
    return t


def _compare(W, all_, model, dens, label):
    for (p, g), lv in model.items():
        w = all_[p][g].watermarks
        W.check(w.shape[0] >= len(lv), label + ": levels kept")
        for i in range(w.shape[0]):
            v, fs = lv[i] if i < len(lv) else (0.0, [0.0] * len(dens[p, g]))
            W.eq(w[i, 0], v, label + ": volume", 1e-9)
            for s, f in enumerate(fs):
                W.eq(w[i, 1 + s], f, label + ": occupancy", 1e-9)
    W.eq(all_.n_electrons_trapped_currently, _held(model, dens), label + ": electrons trapped")


def sequence(W, length, n_phases, groups, first=None):
    fr = [0.5 + 0.25 * p for p in range(n_phases)]
    ccd = W.ac.CCD(fraction_of_traps_per_phase=fr, full_well_depth=[1e4] * n_phases, well_fill_power=[1.0] * n_phases)
    tr = _traps(W, groups)
    all_ = W.ac.AllTrapManager(traps=tr, max_n_transfers=2, ccd=ccd)
    keys = [(p, g) for p in range(n_phases) for g in range(len(groups))]
    dens = dict(((p, g), [t.density * fr[p] for t in tr[g]]) for p, g in keys)
    empty = dict((k, []) for k in keys)
    now, kept = dict(empty), None
    for i in range(length):
        op = OPS[first[i]] if first and i < len(first) else W.pick("op%d" % i, OPS)
        if op in ("fill", "rebind"):
            # the last operation may be anywhere; others alternate
            k = keys[W.int("where%d" % i, 0, len(keys) - 1, force=True) if len(keys) > 1 and i < 2 else i % len(keys)]
            m = all_[k[0]][k[1]]
            v = W.real("v%d" % i, 0, 1, lo_open=True)
            fs = [W.real("f%d_%d" % (i, s), 0, 1) for s in range(len(dens[k]))]
            if op == "rebind":
                m.watermarks = W.np.zeros((m.watermarks.shape[0] + i % 2, m.watermarks.shape[1]), dtype=W.np.float64)
            else:
                m.watermarks[:, :] = 0.0
            m.watermarks[0, 0] = v
            for s, f in enumerate(fs):
                m.watermarks[0, 1 + s] = f
            now[k] = [(v, fs)]
        elif op == "save":
            all_.save()
            kept = dict(now)
        elif op == "restore":
            all_.restore()
            W.reach("restored nothing" if kept is None else "restored a save")
            now = dict(empty if kept is None else kept)
        else:
            all_.empty_all_traps()
            now = dict(empty)
    _compare(W, all_, now, dens, "after " + op)


def real(W, kind, script):
    """Real steps between saving and restoring: the same electrons again."""
    ac = W.ac
    ccd = ac.CCD(fraction_of_traps_per_phase=[1.0], full_well_depth=1e4, well_fill_power=1.0)
    tr, ds, ts, cs = tm.traps(W, kind, 1, dens=[7.0], tau=[2.0])
    all_ = ac.AllTrapManager(traps=tr, max_n_transfers=3, ccd=ccd)
    ns = [W.real("n%d" % i, 0, nice=(0, 50)) for i in range(2)]
    F = W.fill_function("F")

    def step(i):
        return all_[0][0].n_electrons_released_and_captured(n_free_electrons=ns[i], ccd_filling_function=F, dwell_time=1.0)

    if script == "empty":
        a = step(0)
        all_.restore()
        b = step(0)
        W.eq(a, b, "never saved: the first step again")
        all_.empty_all_traps()
        W.eq(all_.n_electrons_trapped_currently, 0, "emptied")
        W.eq(step(0), a, "emptied: the first step again")
    else:
        step(0)
        held = all_.n_electrons_trapped_currently
        all_.save()
        a = step(1)
        all_.restore()
        W.eq(all_.n_electrons_trapped_currently, held, "what was held when saved")
        W.eq(step(1), a, "restored: the same step again")
        all_.restore()
        W.eq(all_.n_electrons_trapped_currently, held, "and again")
        all_.empty_all_traps()
        all_.restore()
        W.eq(all_.n_electrons_trapped_currently, held, "after emptying")


def configs(tier):
    q = tier == "quick"
    out = []
    L = 5 if q else 6
    for a in range(len(OPS)):
        out.append(("sequence", dict(length=L, n_phases=1, groups=("i",), first=(a,)), dict(cost=3)))
        out.append(("sequence", dict(length=L - 1, n_phases=2, groups=("i",), first=(a,)), dict(cost=3)))
        out.append(("sequence", dict(length=L - 1, n_phases=1, groups=("s", "i"), first=(a,)), dict(cost=3)))
        out.append(("sequence", dict(length=L - 1, n_phases=2, groups=("ss", "i"), first=(a,)), dict(cost=5)))
    for kind in ("instant", "slow"):
        out.append(("real", dict(kind=kind, script="empty")))
        out.append(("real", dict(kind=kind, script="again")))
    return out
