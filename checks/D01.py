"""Charge conservation of a whole readout."""
import cl
import modes

BOUNDS = ("2 to 3 rows (thorough: 4) by 1 to 2 columns, 1 to 2 phases (3), ordinary readout, charge injection and pumping, "
          "express 0 to 2, offsets, both release modes, any non-negative charge and any trap response that does not drive "
          "its pixel negative; with arbitrary responses: pixels never negative. Real traps: 2 rows.")
REACH = {"clamp": ["clamped", "not clamped"]}


def exchange(W, mode, rows, cols, phases, express, offset, force=True, first=True, between=True, groups=(1.0,),
             dtype="float", inner=False):
    """What the traps exchanged (times express) is what the image gains or loses."""
    log = []
    respond = cl.patch(W, log=log, share=len(groups))
    img = W.array(W.image("x", rows, cols))
    ccd = cl.ccd(W, phases)
    mk = lambda: modes.roe(W, mode, phases, first, between, force, dtype)
    r1 = mk()
    tr = [[cl.trap(W, d)] for d in groups]
    # away from the edges nothing can be released past them
    win = W.range(1, rows - 1) if inner else (W.range(0, rows - 1) if mode == "pumping" else W.range(rows))
    got = W.ac.add_cti(image=img, parallel_ccd=ccd, parallel_roe=r1, parallel_traps=tr, parallel_express=express,
                       parallel_offset=offset, parallel_window_range=win)
    before = after = moved = gone = 0.0
    for r in range(rows):
        for c in range(cols):
            before, after = before + img[r, c], after + got[r, c]
            W.check(got[r, c] >= 0, "pixels are not negative")
    n = len(log)
    for tag, state, nf, dwell, mult, r, s in log:
        moved = moved + r * mult
    W.check(n > 0, "traps take part")
    if phases > 1 and not inner:
        lost = []
        cl.reference(W, modes.rows(img), ccd, mk(), groups, respond, win, range(cols), express=express, offset=offset,
                     lost=lost)
        for x in lost:
            gone = gone + x
    W.eq(after - before + gone, moved, "charge is conserved")
    if inner or phases == 1:
        for r in (r for r in range(rows) if r not in list(win) and not (inner or mode == "pumping")):
            for c in range(cols):
                W.eq(got[r, c], img[r, c], "rows outside")


def clamp(W, rows, phases, express):
    """Whatever the traps do, no pixel becomes negative."""
    cl.patch(W, admissible=False)
    img = W.array(W.image("x", rows, 1))
    got = W.ac.add_cti(image=img, parallel_ccd=cl.ccd(W, phases), parallel_roe=modes.roe(W, "roe", phases),
                       parallel_traps=cl.trap(W), parallel_express=express)
    low = False
    for r in range(rows):
        W.check(got[r, 0] >= 0, "pixels are not negative")
        if not low and W.fork(got[r, 0] == 0):
            low = True
    W.reach("clamped" if low else "not clamped")


def real(W, kind, rows, groups=1, density="sym", express=0):
    """Real traps: what leaves the image is what the traps then hold."""
    ac = W.ac
    tm = W.module("trap_managers")
    moved = [0.0]
    for name in ("TrapManager", "TrapManagerInstantCapture"):
        cls = getattr(tm, name)
        if "n_electrons_released_and_captured" not in cls.__dict__:
            continue

        def wrapped(self, *a, _f=cls.__dict__["n_electrons_released_and_captured"], **k):
            before = self.n_trapped_electrons_from_watermarks(self.watermarks)
            r = _f(self, *a, **k)
            after = self.n_trapped_electrons_from_watermarks(self.watermarks)
            moved[0] = moved[0] + (before - after) * k.get("express_multiplier", 1)
            return r

        cls.n_electrons_released_and_captured = wrapped
    img = W.array([[W.real("x_%d" % r, 0, nice=(1, 60))] for r in range(rows)])
    tr = []
    for g in range(groups):
        d = W.real("density%d" % g, 0, lo_open=True, nice=(5, 50)) if density == "sym" else density
        tr.append([ac.Trap(density=d, release_timescale=2.0, capture_timescale=0.5) if kind == "slow" else
                   ac.TrapInstantCapture(density=d, release_timescale=2.0)])
    ccd = ac.CCD(fraction_of_traps_per_phase=[1.0], well_fill_power=1.0, full_well_depth=100.0)
    got = ac.add_cti(image=img, parallel_ccd=ccd, parallel_traps=tr, parallel_express=express)
    before = after = 0.0
    for r in range(rows):
        before, after = before + img[r, 0], after + got[r, 0]
        W.check(got[r, 0] >= 0, "pixels are not negative")
    W.eq(after - before, moved[0], "image plus traps")


def two_groups(W, kind, rows):
    real(W, kind, rows, groups=2, density=1000.0)


def configs(tier):
    q = tier == "quick"
    out = []
    for mode in ("roe", "injection"):
        for rows, cols in ((2, 1), (3, 2)) if q else ((2, 1), (3, 2), (4, 1)):
            for express in (0, 1, 2):
                for offset in (0, 1):
                    out.append(("exchange", dict(mode=mode, rows=rows, cols=cols, phases=1, express=express,
                                                 offset=offset)))
        for force in (True, False):
            for express in (0, 1):
                out.append(("exchange", dict(mode=mode, rows=3, cols=1, phases=2, express=express, offset=0, force=force)))
                out.append(("exchange", dict(mode=mode, rows=4, cols=1, phases=2, express=express, offset=1, force=force,
                                             inner=True)))
                out.append(("exchange", dict(mode=mode, rows=3, cols=1, phases=3, express=express, offset=0, force=force)))
    out.append(("exchange", dict(mode="roe", rows=3, cols=2, phases=1, express=2, offset=0, first=False, between=False)))
    out.append(("exchange", dict(mode="roe", rows=3, cols=1, phases=1, express=2, offset=0, groups=(1.0, 2.0))))
    out.append(("exchange", dict(mode="roe", rows=3, cols=1, phases=1, express=2, offset=1, dtype="int")))
    for phases in (1, 2):
        out.append(("exchange", dict(mode="pumping", rows=4, cols=1, phases=phases, express=0, offset=0)))
    for rows, phases, express in ((2, 1, 0), (2, 1, 1), (3, 1, 1), (1, 2, 1)) + (() if q else ((3, 1, 0), (4, 1, 1))):
        out.append(("clamp", dict(rows=rows, phases=phases, express=express)))
    for kind in ("instant", "slow"):
        for rows in (1,) if kind == "slow" else (1, 2) if q else (1, 2, 3):
            out.append(("real", dict(kind=kind, rows=rows)))
        out.append(("two_groups", dict(kind=kind, rows=1)))
    return out
