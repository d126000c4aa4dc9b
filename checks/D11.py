"""Results do not depend on the units of time and charge."""
import modes
import tm

BOUNDS = ("Units 1024 times larger or smaller.  Single steps: 0 to 2 levels in any state, 1 to 2 species, any cloud and filling function, "
          "any dwell time (slow traps: one dwell time); images of 1 to 3 rows with real wells (power 1, with and without notch), 1 to 2 "
          "phases, express 0 to 1, the three kinds of readout.")
REACH = {}

BIG = 1024.0


def _traps(W, kind, S, q, t, dens=(7.0, 3.0)):
    out = []
    for s in range(S):
        d, tau = dens[s] * q, (2.0 + 6 * s) * t
        if kind == "slow":
            out.append(W.ac.Trap(density=d, release_timescale=tau, capture_timescale=(0.5 + s) * t))
        else:
            out.append(W.ac.TrapInstantCapture(density=d, release_timescale=tau))
    return out


def step(W, kind, S, K, charge=1.0, time=1.0, steps=1):
    F = W.fill_function("F")
    dts = [0.75 if kind == "slow" else W.real("dt%d" % i, 0, lo_open=True, nice=(0.1, 3)) for i in range(steps)]
    ns = [W.real("n%d" % i, 0, nice=(0.5, 20)) for i in range(steps)]
    a = tm.manager(W, kind, _traps(W, kind, S, 1.0, 1.0), K + 2 * steps)
    tm.state(W, kind, a, K, S, [2.0 + 6 * s for s in range(S)])
    b = tm.manager(W, kind, _traps(W, kind, S, charge, time), K + 2 * steps)
    for k in range(K):
        b.watermarks[k, 0] = a.watermarks[k, 0]
        for s in range(S):
            b.watermarks[k, 1 + s] = a.watermarks[k, 1 + s] * time if kind == "track" else a.watermarks[k, 1 + s]
    for i in range(steps):
        ra = a.n_electrons_released_and_captured(n_free_electrons=ns[i], ccd_filling_function=F, dwell_time=dts[i])
        rb = b.n_electrons_released_and_captured(n_free_electrons=ns[i] * charge, dwell_time=dts[i] * time,
                                                 ccd_filling_function=lambda n, *x: F(n / charge))
        W.eq(rb / charge, ra, "electrons exchanged")
    W.eq(b.n_trapped_electrons_from_watermarks(b.watermarks) / charge, a.n_trapped_electrons_from_watermarks(a.watermarks),
         "electrons held")


def image(W, kind, rows, charge=1.0, time=1.0, phases=1, mode="roe", express=0, notch=0.0, power=1.0, cols=1,
          direction="parallel", S=1, **flags):
    ac = W.ac
    x = [[W.real("x_%d_%d" % (r, c), 0, nice=(0.5, 120)) for c in range(cols)] for r in range(rows)]
    out = []
    for q, t in ((1.0, 1.0), (charge, time)):
        ccd = ac.CCD(fraction_of_traps_per_phase=[1.0 / phases] * phases, full_well_depth=[100.0 * q] * phases,
                     well_fill_power=[power] * phases, well_notch_depth=[notch * q] * phases)
        roe = modes.roe(W, mode, phases, unit=t, **flags)
        k = {direction + "_ccd": ccd, direction + "_roe": roe, direction + "_traps": _traps(W, kind, S, q, t),
             direction + "_express": express}
        if mode == "pumping":
            k[direction + "_window_range"] = range(1, rows - 1)
        out.append(ac.add_cti(image=W.array([[v * q for v in row] for row in x]), **k))
    for r in range(rows):
        for c in range(cols):
            W.eq(out[1][r, c] / charge, out[0][r, c], "the same image in other units")


def configs(tier):
    q = tier == "quick"
    out = []
    for u in (dict(charge=BIG), dict(charge=1 / BIG), dict(time=BIG), dict(time=1 / BIG)):
        for kind in tm.KINDS:
            for K in range(0, (2 if kind == "slow" else 3) if q else (3 if kind == "slow" else 4)):
                out.append(("step", dict(kind=kind, S=1, K=K, **u), dict(cost=10 * K)))
            out.append(("step", dict(kind=kind, S=2, K=0, **u)))
            if kind != "slow":
                out.append(("step", dict(kind=kind, S=2, K=1, **u)))
                out.append(("step", dict(kind=kind, S=1, K=0, steps=2, **u)))
                if not q:
                    out.append(("step", dict(kind=kind, S=1, K=1, steps=2, **u)))
        for kind in ("instant", "slow"):
            for m in (dict(), dict(notch=10.0), dict(mode="injection"), dict(direction="serial"), dict(power=0.5), dict(S=2),
                      dict(cols=2), dict(cols=2, between=False)):
                out.append(("image", dict(kind=kind, rows=1, **dict(m, **u))))
            if kind == "instant":
                for m in (dict(express=1), dict(express=1, first=False), dict(mode="injection", express=1), dict(notch=10.0)):
                    out.append(("image", dict(kind=kind, rows=2, **dict(m, **u))))
                out.append(("image", dict(kind=kind, rows=1, phases=2, **u)))
                out.append(("image", dict(kind=kind, rows=1, phases=2, force=False, **u)))
                out.append(("image", dict(kind=kind, rows=1, phases=3, **u)))
                out.append(("image", dict(kind=kind, rows=3, phases=1, mode="pumping", n_pumps=2, **u)))
                if not q:
                    out.append(("image", dict(kind=kind, rows=2, **u)))
                    out.append(("image", dict(kind=kind, rows=2, phases=2, **u)))
                    out.append(("image", dict(kind=kind, rows=3, express=1, **u)))
            elif not q:
                out.append(("image", dict(kind=kind, rows=2, express=1, **u)))
                out.append(("image", dict(kind=kind, rows=1, phases=2, **u)))
    return out
