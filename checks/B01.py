"""Well filling."""
import copy

BOUNDS = ("1 to 3 phases; electrons, notch depth and full well depth (0 <= notch < depth) any reals, power any "
          "positive real; two electron numbers for monotonicity.")
OUTSIDE = "Surface traps (not implemented in the code)."
REACH = {"well": ["empty", "notch", "full", "middle"]}


def _ccd(W, n_phases, as_list):
    nice = (10, 1000)
    depth = [W.real("depth%d" % p, 0, nice=nice) for p in range(n_phases)]
    notch = [W.real("notch%d" % p, 0, nice=(0, 9)) for p in range(n_phases)]
    power = [W.real("power%d" % p, 0, lo_open=True, nice=(0.3, 2)) for p in range(n_phases)]
    for d, n in zip(depth, notch):
        W.assume(n < d)
    if not as_list:
        depth, notch, power = [[x[0]] * n_phases for x in (depth, notch, power)]
    kw = dict(
        fraction_of_traps_per_phase=[1.0 / n_phases] * n_phases if n_phases > 1 or as_list else 1,
        full_well_depth=list(depth) if as_list else depth[0],
        well_notch_depth=list(notch) if as_list else notch[0],
        well_fill_power=list(power) if as_list else power[0])
    return W.ac.CCD(**kw), depth, notch, power


def _want(W, n, d, nt, b):
    if W.fork(n <= nt):
        return 0.0
    if W.fork(n >= d):
        return 1.0
    return W.power((n - nt) / (d - nt), b)


def well(W, n_phases, as_list):
    ccd, depth, notch, power = _ccd(W, n_phases, as_list)
    W.check(ccd.n_phases == n_phases, "number of phases")
    for p in range(n_phases):
        n = W.real("n%d" % p, 0, nice=(0, 1000))
        got = ccd.well_filling_function(p)(n)
        want = _want(W, n, depth[p], notch[p], power[p])
        W.eq(got, want, "volume of phase")
        W.check(W.both(got >= 0, got <= 1), "volume in [0, 1]")
        if W.fork(n == 0):
            W.reach("empty")
            W.eq(got, 0, "no electrons, no volume")
        elif W.fork(n <= notch[p]):
            W.reach("notch")
        elif W.fork(n >= depth[p]):
            W.reach("full")
        else:
            W.reach("middle")


def monotone(W, n_phases):
    ccd, depth, notch, power = _ccd(W, n_phases, True)
    p = n_phases - 1
    a, b = W.real("a", 0, nice=(0, 1000)), W.real("b", 0, nice=(0, 1000))
    W.assume(a <= b)
    f = ccd.well_filling_function(phase=p)
    W.le(f(a), f(b), "more electrons, no less volume", 0)
    # the function returned for a phase does not change when others are asked for
    g = ccd.well_filling_function(0)
    va = f(a)
    g(b)
    W.eq(f(a), va, "repeatable")


def equivalent(W, n_phases, as_list):
    ccd, depth, notch, power = _ccd(W, n_phases, as_list)
    n = W.real("n", 0, nice=(0, 1000))
    for p in range(n_phases):
        f = ccd.well_filling_function(p)(n)
        W.eq(ccd.cloud_fractional_volume_from_n_electrons_and_phase(n, p), f, "by phase")
        W.eq(ccd.cloud_fractional_volume_from_n_electrons_and_phase(n_electrons=n, phase=p), f, "by phase")
        ph = W.ac.CCDPhase(ccd, p)
        W.eq(ph.cloud_fractional_volume_from_n_electrons(n), f, "CCDPhase")
        W.eq(ph.full_well_depth, depth[p], "depth of CCDPhase")
        W.eq(ph.well_notch_depth, notch[p], "notch of CCDPhase")
        W.eq(ph.well_fill_power, power[p], "power of CCDPhase")
        W.eq(ph.fraction_of_traps_per_phase, 1.0 / n_phases, "trap share of CCDPhase")
        W.eq(ccd.full_well_depth[p], depth[p], "depth of phase")
        W.eq(ccd.well_notch_depth[p], notch[p], "notch of phase")
        W.eq(ccd.well_fill_power[p], power[p], "power of phase")
    f0 = ccd.well_filling_function()(n)
    W.eq(f0, ccd.well_filling_function(0)(n), "phase 0 is the default")
    W.eq(ccd.cloud_fractional_volume_from_n_electrons_and_phase(n), f0, "phase 0 is the default")


def refused(W, n_phases, length, what):
    vals = [W.real("x%d" % i, 1, 2) for i in range(length)]
    W.raises(ValueError, lambda: W.ac.CCD(fraction_of_traps_per_phase=[1.0] * n_phases, **{what: vals}),
             "list of the wrong length is refused")


def reassigned(W, n_phases):
    """The model follows parameters assigned after construction."""
    ccd, depth, notch, power = _ccd(W, n_phases, True)
    n, d2 = W.real("n", 0, nice=(0, 1000)), W.real("d2", 0, nice=(500, 2000))
    W.assume(d2 > notch[0])
    W.assume(d2 > notch[n_phases - 1])
    p = n_phases - 1
    W.eq(ccd.well_filling_function(p)(n), _want(W, n, depth[p], notch[p], power[p]), "before")
    ccd.full_well_depth = d2
    W.eq(ccd.well_filling_function(p)(n), _want(W, n, d2, notch[p], power[p]), "after assigning a new depth")


def configs(tier):
    out = []
    top = 3 if tier == "quick" else 4
    for p in range(1, top + 1):
        if p <= 2 or tier != "quick":
            out.append(("well", dict(n_phases=p, as_list=True)))
        out.append(("well", dict(n_phases=p, as_list=False)) if p <= 2 else ("monotone", dict(n_phases=p)))
        out.append(("equivalent", dict(n_phases=p, as_list=True)))
        out.append(("equivalent", dict(n_phases=p, as_list=False)))
        if p <= 2:
            out.append(("monotone", dict(n_phases=p)))
            out.append(("reassigned", dict(n_phases=p)))
        for length in range(1, top + 2):
            if length != p:
                for what in ("full_well_depth", "well_fill_power", "well_notch_depth", "well_bloom_level"):
                    out.append(("refused", dict(n_phases=p, length=length, what=what)))
    return out
