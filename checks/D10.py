"""The documented history of the traps."""
import cl
import modes

BOUNDS = ("Images of 1 to 4 rows (thorough: 5) by 1 to 3 columns, 1 to 3 phases, 1 to 2 trap groups, all readouts and flags, express 0 to 3, "
          "offsets 0 to 1, windows and time windows; any image and any trap response, against an independent model of the clocking.")
OUTSIDE = "The multipliers are those of the readout object (C02 to C05), its clock sequence is C01."
REACH = {}


def history(W, mode, rows, cols, phases=1, express=0, offset=0, groups=(1.0,), win=None, cwin=None, time=None, direction="parallel",
            dwell=None, n_pumps=1, **flags):
    respond = cl.patch(W, share=len(groups))
    x = W.image("x", rows, cols)
    ccd = cl.ccd(W, phases, [0.25, 0.0, 0.5][:phases] if dwell == "gap" else None)

    def make():
        roe = modes.roe(W, mode, phases, **flags)
        if dwell == "skip":
            roe.dwell_times = [0.0 if i == 1 else t for i, t in enumerate(roe.dwell_times)]
        if mode == "pumping":
            roe.n_pumps = n_pumps
        return roe

    if win is None:
        win = (1, rows - 1) if mode == "pumping" else (0, rows)
    cwin = cwin or (0, cols)
    tr = [[cl.trap(W, d)] for d in groups]
    k = {direction + "_ccd": ccd, direction + "_roe": make(), direction + "_traps": tr, direction + "_express": express,
         direction + "_offset": offset}
    tw = range(*time) if time else range(rows + offset)
    if direction == "parallel":
        got = W.ac.add_cti(image=W.array(x), parallel_window_range=W.range(*win), serial_window_range=W.range(*cwin),
                           time_window_range=W.range(*time) if time else None, **k)
    else:
        got = W.ac.add_cti(image=W.array([list(r) for r in zip(*x)]), parallel_window_range=W.range(*cwin),
                           serial_window_range=W.range(*win), **k).T
        tw = None
    want = cl.reference(W, x, ccd, make(), groups, respond, W.range(*win), range(*cwin), express=express, offset=offset,
                        time=tw)
    cl.same(W, got, want, "image")


def steps(W, rows, cols, first=True, between=True):
    """Ordinary single-phase readout without express, written out."""
    respond = cl.patch(W)
    x = W.image("x", rows, cols)
    ccd = cl.ccd(W, 1)
    roe = modes.roe(W, "roe", 1, first, between)
    got = W.ac.add_cti(image=W.array(x), parallel_ccd=ccd, parallel_roe=roe, parallel_traps=cl.trap(W))
    tag, dwell = cl.tag(W, ccd, 0, 1.0), roe.dwell_times[0]
    img = [list(r) for r in x]
    # pass e moves row r (r >= e) through its (r - e)th transfer
    state = 0.0
    for c in range(cols):
        kept = state
        for e in range(rows):
            st = kept
            for r in range(e, rows):
                rel, st = respond(st, img[r][c], dwell, tag, 1)
                img[r][c] = img[r][c] + rel
                if not first and r == e:
                    kept = st
        state = 0.0 if between else st
    cl.same(W, got, img, "image")


def configs(tier):
    q = tier == "quick"
    out = []
    add = lambda **k: out.append(("history", k, dict(cost=k["rows"] * k["cols"])))
    for first in (True, False):
        for between in (True, False):
            f = dict(first=first, between=between)
            for rows, cols in ((1, 2), (2, 2), (3, 2), (4, 1)) if q else ((1, 3), (2, 3), (3, 3), (4, 2), (5, 1)):
                for e in (0, 1, 2, 3):
                    add(mode="roe", rows=rows, cols=cols, express=e, **f)
                add(mode="roe", rows=rows, cols=cols, express=1, offset=1, dtype="int", **f)
                add(mode="roe", rows=rows, cols=cols, express=0, offset=1, **f)
            add(mode="roe", rows=2, cols=3, express=1, **f)
            add(mode="roe", rows=3, cols=2, phases=2, express=1, **f)
            add(mode="roe", rows=3, cols=2, phases=2, express=0, force=False, **f)
            add(mode="roe", rows=2, cols=2, phases=3, express=0, **f)
            add(mode="roe", rows=2, cols=2, phases=3, express=1, force=False, **f)
            add(mode="roe", rows=3, cols=2, express=2, groups=(1.0, 2.0), **f)
            add(mode="roe", rows=3, cols=2, express=1, win=(1, 3), **f)
            add(mode="roe", rows=3, cols=3, express=1, cwin=(1, 3), **f)
            add(mode="roe", rows=3, cols=2, express=2, win=(0, 2), offset=1, **f)
            add(mode="roe", rows=3, cols=2, express=0, time=(1, 3), **f)
            add(mode="roe", rows=3, cols=2, express=2, time=(0, 2), **f)
            add(mode="roe", rows=3, cols=2, express=2, direction="serial", **f)
    for between in (True, False):
        for rows, cols in ((1, 2), (2, 2), (3, 1)):
            for e in (0, 1, 2):
                add(mode="injection", rows=rows, cols=cols, express=e, between=between)
            add(mode="injection", rows=rows, cols=cols, express=1, offset=1, between=between)
        add(mode="injection", rows=2, cols=2, phases=2, express=0, between=between)
        add(mode="injection", rows=2, cols=2, phases=2, express=0, between=between, force=False)
    for phases in (1, 2, 3):
        for n in (1, 2):
            for e in (0, 1):
                add(mode="pumping", rows=3, cols=2, phases=phases, n_pumps=n, express=e)
        add(mode="pumping", rows=4, cols=1, phases=phases, n_pumps=1)
    add(mode="roe", rows=2, cols=2, phases=3, dwell="gap")
    add(mode="roe", rows=2, cols=2, phases=3, dwell="skip")
    add(mode="roe", rows=2, cols=1, phases=2, groups=(1.0, 2.0, 4.0), express=1)
    for rows in (1, 2, 3) if q else (1, 2, 3, 4):
        for first in (True, False):
            for between in (True, False):
                out.append(("steps", dict(rows=rows, cols=2, first=first, between=between)))
    return out
