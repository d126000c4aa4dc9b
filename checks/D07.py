"""No side effects, repeatable."""
import cl
import modes

BOUNDS = ("Images of 1 to 3 rows by 1 to 2 columns; adding and removing in either direction or both, all readouts; up to 2 calls (thorough: 3) "
          "in between that share the traps, CCD and readout objects; up to 5 calls on 3 rows that differ in window, time window, express or offset; a setting of readout, CCD or trap changed between two calls; any images and any trap response, and real traps of every kind.")
REACH = {"settings": ["settings"], "changed": ["changed"]}


def public(W, o, depth=0, seen=None):
    """What a user can see of an object: nested tuples."""
    seen = seen or ()
    if depth > 6 or any(o is s for s in seen):
        return "..."
    if hasattr(o, "e") or isinstance(o, (int, float, str, bool, type(None), bytes, type)):
        return o
    if isinstance(o, (list, tuple)) or type(o).__name__ == "UserList":
        return tuple(public(W, x, depth + 1, seen + (o,)) for x in o)
    if isinstance(o, dict):
        return tuple((k, public(W, o[k], depth + 1, seen + (o,))) for k in sorted(o))
    if hasattr(o, "shape") and hasattr(o, "dtype"):
        if o.shape == ():
            return float(o)
        return (tuple(o.shape),) + tuple(o[i] for i in _indices(o.shape))
    if callable(o):
        return "callable"
    out = []
    for n in dir(o):
        if n.startswith("_"):
            continue
        try:
            v = getattr(o, n)
        except Exception:
            continue
        if not callable(v):
            out.append((n, public(W, v, depth + 1, seen + (o,))))
    return tuple(out)


def _indices(shape):
    import itertools

    return itertools.product(*[range(n) for n in shape])


def unchanged(W, a, b, label, path=""):
    if isinstance(a, tuple):
        W.check(isinstance(b, tuple) and len(a) == len(b), "%s%s" % (label, path))
        for i, (x, y) in enumerate(zip(a, b)):
            key = ".%s" % x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else path
            unchanged(W, x, y, label, key)
    elif isinstance(a, (str, bool, type(None), bytes, type)):
        W.check(a == b, label + path)
    else:
        W.eq(a, b, label + path, 0)


def _objects(W, mode, phases, kind=None, **flags):
    ccd = cl.ccd(W, phases)
    roe = modes.roe(W, mode, phases, **flags)
    if kind is None:
        tr = [cl.trap(W)]
    elif kind == "slow":
        tr = [W.ac.Trap(density=3.0, release_timescale=2.0, capture_timescale=0.5)]
    elif kind == "two":
        tr = [[W.ac.TrapInstantCapture(density=3.0, release_timescale=2.0)],
              [W.ac.Trap(density=2.0, release_timescale=1.0, capture_timescale=0.5)]]
    else:
        tr = [W.ac.TrapInstantCapture(density=3.0, release_timescale=2.0)]
    return ccd, roe, tr


def _call(W, what, img, o, **k):
    ccd, roe, tr = o
    k = dict(k)
    s = {}
    for d in ("parallel", "serial") if what.startswith("both") else (("serial",) if what.startswith("serial") else ("parallel",)):
        s.update({d + "_ccd": ccd, d + "_roe": roe, d + "_traps": tr, d + "_express": k.get("express", 0),
                  d + "_offset": k.get("offset", 0)})
    if "rows" in k:
        s["parallel_window_range"] = k["rows"]
    if what.endswith("remove"):
        return W.ac.remove_cti(image=img, iterations=1, **s)
    return W.ac.add_cti(image=img, **s)


def arguments(W, what, mode, rows, cols, phases=1, kind=None, **k):
    """Nothing that was given is changed."""
    flags = dict((f, k.pop(f)) for f in ("first", "between", "force", "dtype") if f in k)
    if kind is None:
        cl.patch(W)
    img = W.array(W.image("x", rows, cols))
    o = _objects(W, mode, phases, kind, **flags)
    before = [public(W, x) for x in o]
    pixels = modes.rows(img)
    if mode == "pumping":
        k["rows"] = range(1, rows - 1)
    got = _call(W, what, img, o, **k)
    for n, x, y in zip(("ccd", "roe", "traps"), before, [public(W, x) for x in o]):
        unchanged(W, x, y, n)
    for r in range(rows):
        for c in range(cols):
            W.eq(img[r, c], pixels[r][c], "image", 0)
    # what is returned is not the image itself
    for r in range(rows):
        for c in range(cols):
            got[r, c] = -1.0
    for r in range(rows):
        for c in range(cols):
            W.eq(img[r, c], pixels[r][c], "image after writing to the result", 0)


def empty(W, what, rows):
    """Also when there is nothing to do."""
    img = W.array(W.image("x", rows, 1))
    got = W.ac.add_cti(image=img) if what == "add" else W.ac.remove_cti(image=img, iterations=0)
    got[0, 0] = -1.0
    W.check(img[0, 0] >= 0, "the image is copied")


def repeat(W, what, between, mode, rows, cols, phases=1, kind=None, **k):
    """The same call again, whatever happened in between."""
    flags = dict((f, k.pop(f)) for f in ("first", "between_columns", "force", "dtype") if f in k)
    if "between_columns" in flags:
        flags["between"] = flags.pop("between_columns")
    if kind is None:
        cl.patch(W)
    x = W.image("x", rows, cols)
    o = _objects(W, mode, phases, kind, **flags)
    if mode == "pumping":
        k["rows"] = range(1, rows - 1)
    a = _call(W, what, W.array(x), o, **k)
    for i, other in enumerate(between):
        n = 3 if mode == "pumping" else 2
        img = W.array(W.image("z%d" % i, n, 1))
        _call(W, other, img, o, express=1, **(dict(rows=range(1, n - 1)) if mode == "pumping" else {}))
    b = _call(W, what, W.array(x), o, **k)
    for r in range(rows):
        for c in range(cols):
            W.eq(a[r, c], b[r, c], "the same result again")


def fresh(W, what, between, mode, rows, phases=1, **k):
    """Objects that were used before give what new ones give."""
    cl.patch(W)
    x = W.image("x", rows, 1)
    o = _objects(W, mode, phases)
    for i, other in enumerate(between):
        _call(W, other, W.array(W.image("z%d" % i, 2, 2)), o, express=1, offset=1)
    a = _call(W, what, W.array(x), o, **k)
    b = _call(W, what, W.array(x), _objects(W, mode, phases), **k)
    for r in range(rows):
        W.eq(a[r, 0], b[r, 0], "used objects and new ones")


FIELDS = dict(rows="parallel_window_range", express="parallel_express", offset="parallel_offset",
              time="time_window_range", serial="serial_window_range")


def settings(W, mode, rows, calls, phases=1, cols=1, mutate=None, **flags):
    """One readout used with one setting after another: each call gives what new
    objects give."""
    cl.patch(W)
    x = W.image("x", rows, cols)
    o = _objects(W, mode, phases, **flags)
    for i, c in enumerate(calls):
        k = dict((FIELDS[f], range(*v) if isinstance(v, (list, tuple)) else v) for f, v in c.items())
        out = []
        for ob in (o, _objects(W, mode, phases, **flags)):
            s = dict(parallel_ccd=ob[0], parallel_roe=ob[1], parallel_traps=ob[2])
            if "serial_window_range" in k:
                s.update(serial_ccd=ob[0], serial_roe=ob[1], serial_traps=ob[2])
            out.append(W.ac.add_cti(image=W.array(x), **s, **k))
        for r in range(rows):
            for c in range(cols):
                W.eq(out[0][r, c], out[1][r, c], "call %d: used objects and new ones" % i)
    W.reach("settings")


def changed(W, mode, rows, change, phases=1, kind=None, cols=1, **k):
    """A setting changed between two calls counts from the next call on."""
    if kind is None:
        cl.patch(W)
    x = W.image("x", rows, cols)
    o = _objects(W, mode, phases, kind)
    _call(W, "parallel", W.array(W.image("z", rows, cols)), o, **k)
    fresh = _objects(W, mode, phases, kind)
    for ob in (o, fresh):
        for which, name, value in change:
            t = dict(ccd=ob[0], roe=ob[1], trap=ob[2][0])[which]
            if name == "dwell_times":
                value = [W.np.float64(v) for v in value]
            elif name == "express_matrix_dtype":
                value = dict(int=W.INT, float=W.FLOAT)[value]
            setattr(t, name, value)
    a = _call(W, "parallel", W.array(x), o, **k)
    b = _call(W, "parallel", W.array(x), fresh, **k)
    for r in range(rows):
        for c in range(cols):
            W.eq(a[r, c], b[r, c], "used objects and new ones")
    W.reach("changed")


def configs(tier):
    q = tier == "quick"
    out = []
    for what in ("parallel", "serial", "both", "parallel-remove", "both-remove"):
        for mode in ("roe", "injection"):
            out.append(("arguments", dict(what=what, mode=mode, rows=2, cols=2)))
        out.append(("arguments", dict(what=what, mode="roe", rows=2, cols=2, phases=2, express=1)))
        out.append(("arguments", dict(what=what, mode="roe", rows=2, cols=2, phases=2, force=False, offset=1)))
        out.append(("arguments", dict(what=what, mode="roe", rows=2, cols=2, express=1, first=False, between=False)))
        out.append(("arguments", dict(what=what, mode="roe", rows=2, cols=2, express=1, dtype="int")))
    for phases in (1, 2):
        out.append(("arguments", dict(what="parallel", mode="pumping", rows=3, cols=1, phases=phases)))
    for kind in ("instant", "slow", "two"):
        out.append(("arguments", dict(what="parallel", mode="roe", rows=1, cols=1, kind=kind)))
    out.append(("arguments", dict(what="parallel", mode="roe", rows=1, cols=1, phases=2, kind="instant")))
    for what in ("add", "remove"):
        out.append(("empty", dict(what=what, rows=2)))
    mid = (("parallel",), ("serial-remove",), ("both", "parallel")) + (() if q else (("both", "serial", "parallel-remove"),))
    for m in mid:
        for what in ("parallel", "both", "parallel-remove"):
            out.append(("repeat", dict(what=what, between=m, mode="roe", rows=2, cols=2)))
            out.append(("repeat", dict(what=what, between=m, mode="injection", rows=2, cols=1)))
            out.append(("fresh", dict(what=what, between=m, mode="roe", rows=2)))
        out.append(("repeat", dict(what="parallel", between=m, mode="roe", rows=3, cols=2, express=2, first=False,
                                   between_columns=False)))
        out.append(("repeat", dict(what="parallel", between=m, mode="roe", rows=2, cols=1, phases=2, force=False)))
        out.append(("fresh", dict(what="parallel", between=m, mode="injection", rows=2)))
        out.append(("fresh", dict(what="serial", between=m, mode="roe", rows=2, express=1, offset=1)))
    out.append(("repeat", dict(what="parallel", between=("parallel",), mode="pumping", rows=3, cols=1, phases=2)))
    seqs = [
        [dict(rows=(0, 1)), dict(rows=(1, 2)), dict(rows=(2, 3)), dict(rows=(0, 1))],
        [dict(rows=(0, 2)), dict(rows=(1, 3)), dict()],
        [dict(express=1), dict(express=2), dict(), dict(express=1)],
        [dict(offset=1), dict(), dict(offset=2), dict(offset=1, rows=(1, 3))],
        [dict(time=(0, 1)), dict(), dict(time=(1, 3)), dict(time=(1, 2)), dict(time=(0, 1), rows=(1, 2))],
        [dict(express=1, offset=1), dict(express=1, offset=2), dict(express=2, offset=1)],
    ]
    for calls in seqs:
        for flags in (dict(), dict(first=False), dict(first=False, between=False), dict(dtype="int")):
            out.append(("settings", dict(mode="roe", rows=3, calls=calls, **flags)))
        if not any("offset" in c for c in calls):
            out.append(("settings", dict(mode="roe", rows=3, calls=calls, phases=2)))
    for calls in (seqs[0][:3], seqs[2], seqs[4]):
        out.append(("settings", dict(mode="injection", rows=3, calls=calls)))
    for calls in ([dict(rows=(1, 2)), dict(rows=(2, 3)), dict(rows=(1, 3))],
                  [dict(rows=(1, 3), express=1), dict(rows=(1, 3)), dict(rows=(2, 3), express=1)]):
        out.append(("settings", dict(mode="pumping", rows=4, calls=calls, phases=2)))
    out.append(("settings", dict(mode="roe", rows=2, cols=2, calls=[
        dict(serial=(0, 1)), dict(serial=(1, 2)), dict(rows=(0, 1), serial=(0, 2)), dict(rows=(1, 2), serial=(1, 2))])))
    for change in ([("roe", "empty_traps_between_columns", False)],
                   [("roe", "empty_traps_for_first_transfers", False)],
                   [("roe", "express_matrix_dtype", "int")],
                   [("roe", "dwell_times", (0.5, 2.0))],
                   [("trap", "density", 7.0)],
                   [("ccd", "full_well_depth", [3e4, 7e4])],
                   [("ccd", "fraction_of_traps_per_phase", [0.5, 0.125])]):
        for mode in ("roe", "injection"):
            if mode == "injection" and "first" in change[0][1]:
                continue
            out.append(("changed", dict(mode=mode, rows=2, cols=2 if "columns" in change[0][1] else 1, change=change,
                                        phases=2, express=1)))
    for kind in ("instant", "slow"):
        for change in ([("trap", "density", 7.0)], [("trap", "release_timescale", 4.0)],
                       [("ccd", "full_well_depth", [3e4])], [("ccd", "well_notch_depth", [10.0])],
                       [("ccd", "well_fill_power", [0.5])], [("roe", "dwell_times", (0.5,))]) + (
                ([("trap", "capture_timescale", 0.25)],) if kind == "slow" else ()):
            out.append(("changed", dict(mode="roe", rows=1, change=change, kind=kind)))
    for kind in ("instant", "slow", "two"):
        out.append(("repeat", dict(what="parallel", between=(), mode="roe", rows=1, cols=1, kind=kind)))
    return out
