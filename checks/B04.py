"""The HST ACS preset."""
import math

BOUNDS = "Every date from launch on (a real number), every date before launch."
REACH = {"preset": ["warm, before the repair", "cold, before the repair", "after the repair"]}

LAUNCH, COLD, SM4 = 2452334.5, 2453920, 2454968


def _release(kelvin):
    """Release times measured at -81 C, moved to another temperature."""
    ref, k = 273.15 - 81, 8.617343e-5
    return [t * kelvin / ref * math.exp(e / (k * ref * kelvin) * (kelvin - ref))
            for t, e in ((0.74, 0.31), (7.7, 0.34), (37, 0.44))]


def preset(W):
    ac = W.ac
    date = W.real("date", LAUNCH, 2500000)
    traps, ccd, roe = ac.model_for_HST_ACS(date=date)
    W.check(len(traps) == 3, "three species")
    tot = 0.0
    for t in traps:
        W.check(isinstance(t, ac.TrapInstantCapture), "instant capture")
        tot = tot + t.density
    after = W.fork(date >= SM4)
    if after:
        want = -0.246591 * 1.011 + 0.000558980 * 1.011 * (date - LAUNCH)
        W.reach("after the repair")
    else:
        want = 0.017845 + 3.5488e-4 * (date - LAUNCH)
    W.eq(tot, want, "total density")
    W.check(tot > 0, "positive density")
    for t, f in zip(traps, (1.27, 3.38, 2.85)):
        W.eq(t.density * 7.5, tot * f, "published ratio")
    warm = W.fork(date < COLD)
    if not after:
        W.reach("warm, before the repair" if warm else "cold, before the repair")
    for t, want in zip(traps, _release(273.15 - (77 if warm else 81))):
        W.eq(t.release_timescale, want, "release time")
        W.eq(t.emission_rate, 1 / want, "emission rate")
    if not warm:
        for t, want in zip(traps, (0.74, 7.7, 37)):
            W.eq(t.release_timescale, want, "release time as published")


def well(W):
    ac = W.ac
    date = W.real("date", LAUNCH, 2500000)
    traps, ccd, roe = ac.model_for_HST_ACS(date=date)
    W.check(ccd.n_phases == 1, "one phase")
    W.eq(ccd.fraction_of_traps_per_phase[0], 1, "all traps in it")
    n = W.real("n", 0, 84700, nice=(0, 84700))
    F = ccd.well_filling_function(phase=0)
    W.eq(F(n), W.power(n / 84700, 0.478), "published well")
    W.eq(F(84700.0), 1, "full well")
    W.check(len(roe.dwell_times) == 1 and roe.n_phases == 1, "one step")
    W.eq(roe.dwell_times[0], 1, "of one pixel")
    W.check(type(roe) is ac.ROE, "ordinary readout")
    W.check(bool(roe.empty_traps_between_columns) and bool(roe.empty_traps_for_first_transfers), "fresh traps")


def early(W):
    date = W.real("date", 0, LAUNCH, hi_open=True)
    W.raises((AssertionError, ValueError), lambda: W.ac.model_for_HST_ACS(date=date), "dates before launch are refused")


def configs(tier):
    return [("preset", {}), ("well", {}), ("early", {})]
