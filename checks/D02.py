"""Memory safety of the compiled loops."""
import cl
import ex
import modes
import tm

BOUNDS = ("1 to 4 rows (thorough: 6) by 1 to 2 columns, every window of rows and columns (some with a step), offsets 0 to 2 (3), express 0 to rows + 1, 1 to 3 "
          "phases (4), all readouts, release modes and flags, any trap response; trap routines from arbitrary states of up "
          "to 3 levels (5) with the storage reserved for the transfers that made them.")
OUTSIDE = "Row -1 of the image in the clocking loop is defined: it is the last row of the zero padding."
REACH = {}


def _go(W, img, ccd, roe, tr, rows, cols, express, offset, both):
    k = dict(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=tr, parallel_express=express, parallel_offset=offset,
             parallel_window_range=rows, serial_window_range=cols)
    return W.ac.add_cti(image=img, **k)


def clock(W, mode, rows, cols, phases, force=True, first=True, between=True, top_offset=1, dtype="float", step=1):
    cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    ccd = cl.ccd(W, phases)
    roe = modes.roe(W, mode, phases, first, between, force, dtype)
    if mode == "pumping":
        roe.n_pumps = W.int("n_pumps", 1, 2, force=True)
    a = W.int("a", 0, rows - 1, force=True)
    # a pumped pixel needs the pixels it is pumped to and fro
    b = W.int("b", a + 1, rows if mode != "pumping" else min(rows, a + 1), force=True)
    c = W.int("c", 0, cols - 1, force=True)
    express = W.int("express", 0, rows + 1, force=True)
    offset = W.int("offset", 0, top_offset, force=True)
    got = _go(W, img, ccd, roe, cl.trap(W), W.range(a, b, step), W.range(c, cols, step), express, offset, False)
    W.check(got.shape == img.shape, "the image keeps its size")


def mismatch(W, ccd_phases, roe_phases):
    """More phases in the CCD than are clocked: refused, not read past the end."""
    cl.patch(W)
    img = W.array(W.image("x", 2, 1))
    fr = [W.real("fr%d" % p, 0, 1) for p in range(ccd_phases)]
    spread = any([bool(W.fork(f > 0)) for f in fr[roe_phases:]])
    ccd = W.ac.CCD(fraction_of_traps_per_phase=[0.5 if W.fork(f > 0) else 0.0 for f in fr])
    roe = modes.roe(W, "roe", roe_phases)
    call = lambda: W.ac.add_cti(image=img, parallel_ccd=ccd, parallel_roe=roe, parallel_traps=cl.trap(W))
    if spread:
        W.raises(ValueError, call, "traps in phases that are not clocked")
    else:
        W.check(call().shape == img.shape, "phases without traps do no harm")


def dwell(W, phases, rows):
    """Steps without dwell time and phases without traps are left out."""
    cl.patch(W)
    img = W.array(W.image("x", rows, 1))
    ts = [W.real("t%d" % s, 0, 1) for s in range(phases)]
    roe = W.ac.ROE(dwell_times=[1.0 + s if W.fork(t > 0) else 0 for s, t in enumerate(ts)])
    ccd = cl.ccd(W, phases, [0.5 if s % 2 else 0.0 for s in range(phases - 1)] + [0.5])
    got = W.ac.add_cti(image=img, parallel_ccd=ccd, parallel_roe=roe, parallel_traps=cl.trap(W))
    W.check(got.shape == img.shape, "the image keeps its size")


def traps(W, kind, S, K, T=None):
    """Trap routines with exactly the storage reserved for what happened before."""
    tr, ds, ts, cs = tm.traps(W, kind, S)
    p = tm.per_transfer(kind)
    m = tm.manager(W, kind, tr, T or (K + p - 1) // p + 1)
    pre = tm.state(W, kind, m, K, S, ts)
    P = tm.Contract(W, m, S, pre) if kind == "slow" else None
    n = W.real("n", 0, nice=(0, 50))
    dt = tm.dwell(W, P)
    m.n_electrons_released_and_captured(n_free_electrons=n, ccd_filling_function=W.fill_function("F"), dwell_time=dt)
    W.check(m.watermarks.shape[1] == 1 + S, "one column per species")


def sequence(W, kind, steps, T):
    """Steps from empty traps; T transfers reserved may be fewer than made
    (traps that are not emptied between columns)."""
    tau = [2.0]
    tr, ds, ts, cs = tm.traps(W, kind, 1, dens=[7.0], tau=tau)
    m = tm.manager(W, kind, tr, T)
    F = W.fill_function("F")
    for i in range(steps):
        m.n_electrons_released_and_captured(n_free_electrons=W.real("n%d" % i, 0, nice=(0, 50)),
                                            ccd_filling_function=F, dwell_time=1.0)
    W.check(m.watermarks.shape[1] == 2, "one column per species")


def routine(W, levels, S):
    """The routines themselves, from Python, with any values."""
    u = W.module("trap_managers_utils")
    wm = W.array([[W.real("w%d_%d" % (i, j), 0, 1) for j in range(1 + S)] for i in range(levels)])
    d = W.array([W.real("d%d" % j, 0) for j in range(S)])
    u.cy_n_trapped_electrons_from_watermarks(wm, d)
    v = W.real("v", 0, 1)
    u.cy_value_in_cumsum(v, wm[:, 0])
    top = W.int("top", -1, levels - 1, force=True)
    k = u.cy_watermark_index_above_cloud_from_cloud_fractional_volume(v, wm, top)
    W.check(W.both(0 <= k, k <= max(levels - 1, top + 1)), "index in range")
    if levels > 1:
        at = W.int("at", 0, levels - 2, force=True)
        u.cy_update_watermark_volumes_for_cloud_below_highest(wm, v, at)


def configs(tier):
    q = tier == "quick"
    out = []
    for rows, cols in ((1, 1), (2, 2), (3, 1), (4, 1)) if q else ((1, 1), (2, 2), (3, 2), (4, 1), (5, 1), (6, 1)):
        for first, between in ((True, True), (False, True), (False, False)):
            out.append(("clock", dict(mode="roe", rows=rows, cols=cols, phases=1, first=first, between=between,
                                      top_offset=2 if rows < 3 else 1), dict(cost=rows)))
        for force in (True, False):
            for phases in (2, 3) if q else (2, 3, 4):
                if rows * phases <= (6 if q else 12):
                    out.append(("clock", dict(mode="roe", rows=rows, cols=cols, phases=phases, force=force), dict(cost=9)))
        if rows <= 3:
            out.append(("clock", dict(mode="injection", rows=rows, cols=cols, phases=1)))
            out.append(("clock", dict(mode="injection", rows=rows, cols=cols, phases=1, dtype="int")))
            out.append(("clock", dict(mode="roe", rows=rows, cols=cols, phases=1, dtype="int")))
    for mode in ("roe", "injection"):
        out.append(("clock", dict(mode=mode, rows=4, cols=1, phases=1, step=2), dict(cost=9)))
    out.append(("clock", dict(mode="roe", rows=2, cols=3, phases=2, step=2, force=False), dict(cost=9)))
    for phases in (1, 2):
        out.append(("clock", dict(mode="pumping", rows=2 + phases, cols=1, phases=phases)))
        out.append(("clock", dict(mode="injection", rows=2, cols=1, phases=phases, force=False)))
    for a, b in ((2, 1), (3, 2), (1, 2), (1, 3), (2, 3)):
        out.append(("mismatch", dict(ccd_phases=a, roe_phases=b)))
    for phases in (2, 3):
        out.append(("dwell", dict(phases=phases, rows=2)))
    for kind in tm.KINDS:
        for S in (1, 2):
            for K in range(0, 4 if q else 6):
                if K * S <= (3 if q else 6):
                    out.append(("traps", dict(kind=kind, S=S, K=K)))
        if kind != "track":
            for steps, T in ((2, 2), (3, 1), (3, 3)) + (() if q else ((4, 1), (4, 4))):
                if kind == "instant":
                    out.append(("sequence", dict(kind=kind, steps=steps, T=T)))
    for levels in range(1, 5 if q else 7):
        for S in (1, 2):
            out.append(("routine", dict(levels=levels, S=S)))
    return out
