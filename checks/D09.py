"""Without traps, charge or transfers nothing changes."""
import cl
import modes

BOUNDS = ("Images of 1 to 3 rows by 1 to 2 columns, every kind of trap and well, 1 to 3 phases, all readouts, express 0 to 2, offsets "
          "0 to 1; any image; any small share of traps and short dwell time; wrappings with any trap response.")
REACH = {}


def _trap(W, kind, density):
    ac = W.ac
    if kind == "slow":
        return ac.Trap(density=density, release_timescale=2.0, capture_timescale=0.5)
    if kind == "continuum":
        W.quad(lambda f, a, b, args: 0.5 * f(1.0, *args) + 0.25 * f(3.0, *args))
        T = W.module("traps").TrapLogNormalLifetimeContinuum
        return T(density=density, release_timescale_mu=2.0, release_timescale_sigma=0.5)
    return ac.TrapInstantCapture(density=density, release_timescale=2.0)


def _ccd(W, phases, power=1.0, notch=0.0):
    return W.ac.CCD(fraction_of_traps_per_phase=[1.0 / phases] * phases, full_well_depth=[100.0] * phases,
                    well_fill_power=[power] * phases, well_notch_depth=[notch] * phases)


def _args(directions, ccd, roe, tr, express, offset, mode, rows):
    k = {}
    for d in directions:
        k.update({d + "_ccd": ccd, d + "_roe": roe, d + "_traps": tr, d + "_express": express, d + "_offset": offset})
    if mode == "pumping":
        k["parallel_window_range"] = range(1, rows - 1)
    return k


def unchanged(W, what, rows, cols, kind="instant", phases=1, mode="roe", express=0, offset=0, directions=("parallel",),
              remove=False, **flags):
    ac = W.ac
    img = W.array(W.image("x", rows, cols))
    roe = modes.roe(W, mode, phases, **flags)
    tr = [_trap(W, kind, 0.0 if what == "density" else 5.0)]
    if what == "none":
        tr = None
    if what == "dwell":
        roe = W.ac.ROE(dwell_times=[0.0] * phases)
    k = _args(directions, _ccd(W, phases), roe, tr, express, offset, mode, rows)
    got = ac.remove_cti(image=img, iterations=1, **k) if remove else ac.add_cti(image=img, **k)
    W.check(tuple(got.shape) == (rows, cols), "shape")
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], img[r, c], "unchanged")


def fractions(W, rows):
    """Traps with a share of zero in every phase that is clocked."""
    img = W.array(W.image("x", rows, 1))
    ccd = W.ac.CCD(fraction_of_traps_per_phase=[0.0, 0.0], full_well_depth=[100.0] * 2, well_fill_power=[1.0] * 2)
    got = W.ac.add_cti(image=img, parallel_ccd=ccd, parallel_roe=modes.roe(W, "roe", 2), parallel_traps=_trap(W, "instant", 5.0))
    for r in range(rows):
        W.eq(got[r, 0], img[r, 0], "unchanged")


def dark(W, rows, cols, kind, phases=1, mode="roe", express=0, offset=0, power=1.0, notch=0.0, directions=("parallel",), **flags):
    """No charge at all: nothing to trap."""
    img = W.array([[0.0] * cols for _ in range(rows)])
    d = W.real("density", 0, nice=(1, 20)) if kind != "continuum" else 5.0
    k = _args(directions, _ccd(W, phases, power, notch), modes.roe(W, mode, phases, **flags), [_trap(W, kind, d)], express,
              offset, mode, rows)
    got = W.ac.add_cti(image=img, **k)
    for r in range(rows):
        for c in range(cols):
            W.eq(got[r, c], 0, "still empty")


def notch(W, rows, kind, express=0):
    """Charge that stays in the notch meets no traps."""
    x = [[W.real("x_%d" % r, 0, 10.0)] for r in range(rows)]
    img = W.array(x)
    got = W.ac.add_cti(image=img, parallel_ccd=_ccd(W, 1, 0.75, 10.0), parallel_traps=_trap(W, kind, 5.0),
                       parallel_express=express)
    for r in range(rows):
        W.eq(got[r, 0], x[r][0], "charge below the notch depth")


def wrapped(W, rows, cols, direction, kind="patched"):
    """A single trap, CCD or readout however it is wrapped."""
    if kind == "patched":
        cl.patch(W)
        t = cl.trap(W)
    else:
        t = _trap(W, kind, 5.0)
    ac = W.ac
    x = W.image("x", rows, cols)
    one = ac.CCD(fraction_of_traps_per_phase=[1.0], full_well_depth=[2e4], well_fill_power=[0.5], well_notch_depth=[0.0])
    flat = ac.CCD(fraction_of_traps_per_phase=[1], full_well_depth=2e4, well_fill_power=0.5)
    roe = ac.ROE(dwell_times=[1.0])
    base = None
    for tr in (t, [t], [[t]]):
        for ccd in (one, flat):
            for r in (None, roe):
                k = {direction + "_traps": tr, direction + "_ccd": ccd}
                if r is not None:
                    k[direction + "_roe"] = r
                got = ac.add_cti(image=W.array(x), **k)
                if base is None:
                    base = got
                for i in range(rows):
                    for j in range(cols):
                        W.eq(got[i, j], base[i, j], "however it is wrapped")


def groups(W, rows, cols, express=0):
    """Lists of groups: groups without traps' effect are left out; order of
    groups does not matter."""
    cl.patch(W, share=2)
    ac = W.ac
    x = W.image("x", rows, cols)
    a, b = cl.trap(W, 1.0), cl.trap(W, 2.0, "slow")
    out = [ac.add_cti(image=W.array(x), parallel_ccd=cl.ccd(W, 1), parallel_traps=tr, parallel_express=express)
           for tr in ([[a], [b]], [[b], [a]])]
    for i in range(rows):
        for j in range(cols):
            W.eq(out[0][i, j], out[1][i, j], "order of the groups")


def small(W, kind, rows=1, phases=1, mode="roe"):
    """Nothing but zero is left out: a small share of many traps, or a short
    dwell time, has the effect of one exchange with those traps."""
    ac = W.ac
    f = W.real("f", 0, 1, lo_open=True)
    t = W.real("t", 0, lo_open=True, nice=(1e-6, 1))
    d = W.real("d", 0, nice=(1e3, 1e8))
    W.assume(f * d >= 2)
    W.assume(f * d <= 40)
    fr = [f] + [0.0] * (phases - 1)
    ccd = ac.CCD(fraction_of_traps_per_phase=fr, full_well_depth=[100.0] * phases, well_fill_power=[1.0] * phases)
    roe = ac.ROE(dwell_times=[t] + [0.0] * (phases - 1))
    if mode == "injection":
        roe = ac.ROEChargeInjection(dwell_times=[t] + [0.0] * (phases - 1), n_pixel_transfers=1)
    tr = ac.Trap(density=d, release_timescale=2.0, capture_timescale=0.5) if kind == "slow" else ac.TrapInstantCapture(density=d, release_timescale=2.0)
    got = ac.add_cti(image=W.array([[50.0]]), parallel_ccd=ccd, parallel_roe=roe, parallel_traps=[tr])
    m = ac.AllTrapManager([tr], 3, ccd)[0][0]
    r = m.n_electrons_released_and_captured(n_free_electrons=50.0, dwell_time=t, ccd_filling_function=ccd.well_filling_function(phase=0))
    W.eq(got[0, 0], 50.0 + r, "the exchange of those traps")
    if kind == "instant":
        W.eq(got[0, 0], 50.0 - f * d * 0.5, "traps below the cloud are filled")


def configs(tier):
    q = tier == "quick"
    out = []
    shapes = ((1, 1), (2, 2), (3, 1)) if q else ((1, 1), (2, 2), (3, 1), (4, 2))
    for rows, cols in shapes:
        for directions in (("parallel",), ("serial",), ("parallel", "serial")):
            out.append(("unchanged", dict(what="none", rows=rows, cols=cols, directions=directions)))
            out.append(("unchanged", dict(what="none", rows=rows, cols=cols, directions=directions, remove=True)))
            for phases in (1, 2):
                out.append(("unchanged", dict(what="dwell", rows=rows, cols=cols, phases=phases, directions=directions)))
    for kind in ("instant", "slow", "continuum"):
        for e in (0, 1):
            out.append(("unchanged", dict(what="density", rows=1, cols=1, kind=kind, express=e)))
        for directions in (("parallel",), ("serial",), ("parallel", "serial")):
            out.append(("dark", dict(rows=2, cols=2, kind=kind, directions=directions)))
        for mode in ("roe", "injection"):
            for phases in (1, 2, 3):
                out.append(("dark", dict(rows=3, cols=1, kind=kind, phases=phases, mode=mode, express=1, offset=1)))
        out.append(("dark", dict(rows=3, cols=1, kind=kind, phases=2, mode="pumping")))
        out.append(("dark", dict(rows=2, cols=1, kind=kind, phases=2, force=False)))
        out.append(("dark", dict(rows=2, cols=2, kind=kind, express=2, first=False, between=False)))
        out.append(("dark", dict(rows=2, cols=1, kind=kind, power=0.5, notch=3.0)))
        if kind != "continuum":
            out.append(("notch", dict(rows=1, kind=kind)))
            out.append(("notch", dict(rows=2, kind=kind, express=1)))
    for kind in ("instant", "slow"):
        for phases in (1, 2):
            for mode in ("roe", "injection"):
                out.append(("small", dict(kind=kind, phases=phases, mode=mode)))
        out.append(("unchanged", dict(what="density", rows=2, cols=1, kind=kind, express=1)))
        out.append(("unchanged", dict(what="density", rows=1, cols=1, kind=kind, phases=2)))
        out.append(("unchanged", dict(what="density", rows=1, cols=1, kind=kind, mode="injection")))
    out.append(("fractions", dict(rows=2)))
    for direction in ("parallel", "serial"):
        out.append(("wrapped", dict(rows=2, cols=2, direction=direction)))
        out.append(("wrapped", dict(rows=1, cols=1, direction=direction, kind="instant")))
    for e in (0, 1):
        out.append(("groups", dict(rows=2, cols=1, express=e)))
    return out
