#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

gen.py [ID ...]: only the listed ids are claimed as checks (default: every
property with a file in checks/)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TM, TMU, TR = "arcticpy/trap_managers.py", "arcticpy/trap_managers_utils.pyx", "arcticpy/traps.py"
MU, MA, ROE, CCD = "arcticpy/main_utils.pyx", "arcticpy/main.py", "arcticpy/roe.py", "arcticpy/ccd.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), technique=None, note=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))


WM = ("watermarks", "volume and fill fraction (or elapsed time) of each level of filled traps", TM)

prop("A01", "Every trap step conserves charge",
     "Whenever a charge cloud dwells in a pixel, the net number of electrons the traps release (or capture) equals "
     "exactly the decrease (or increase) of the number of electrons held in the traps. This holds for instant-capture, "
     "slow-capture and lifetime-tracking traps, for any number of species sharing levels, and whatever the traps held before.",
     ["inputs", "histories", "configurations"],
     "every reachable trap state, cloud size, dwell time, trap species mix and well-filling function",
     "tests compare a few hand-computed states to 1e-5; the claim is over every prior state and cloud size, including the "
     "rarely entered branches (not enough electrons, level collapse, cloud between levels)",
     [TM, TMU],
     [("released/captured bookkeeping", TM + " n_electrons_released_and_captured, n_electrons_released, n_electrons_captured"),
      ("trapped-charge sum", TMU + " cy_n_trapped_electrons_from_watermarks")],
     ["return value of a trap step vs. the change in the manager's trapped electrons"], [WM])

prop("A02", "Trap state stays physical and within its storage",
     "After any sequence of trap steps every level of filled traps has positive volume, the volumes total at most one "
     "pixel, unused levels are empty, and no species is ever less than empty or more than full. The storage for levels never "
     "overflows, however many steps follow each other: within the transfers the trap set was created for it needs no more "
     "levels than reserved, beyond that it grows.",
     ["inputs", "histories", "configurations"],
     "every sequence of clouds and dwell times, by induction over single steps from an arbitrary valid state",
     "tests check final states of a few short sequences; invariance under every step from every valid state is not sampled",
     [TM, TMU],
     [("level splitting", TMU + " cy_update_watermark_volumes_for_cloud_below_highest"),
      ("level merging", TM + " collapse_redundant_watermarks"),
      ("storage reserved", TM + " TrapManager.__init__ (n_watermarks_per_transfer)")],
     ["the manager's levels after a step"], [WM])

prop("A03", "Traps never capture more electrons than are available",
     "In one trap step the traps of a group never capture more electrons than the charge cloud contains, so a pixel can never be "
     "driven negative; with an empty cloud they can only release. Empty traps release nothing, and no more is released "
     "than the traps held.",
     ["inputs", "histories", "configurations"],
     "every trap state, cloud size (including zero and fewer electrons than traps), dwell time and species mix",
     "tests have three hand-made 'not enough electrons' cases per manager; over-capture needs particular combinations of "
     "previous fill and cloud size",
     [TM], [("scaling when too few electrons", TM + " updated_watermarks_from_capture_not_enough and its callers")],
     ["return value of a trap step vs. the number of free electrons"], [WM])

prop("A04", "Instant-capture traps: full below the cloud, exponential above",
     "With instant capture, after a step every trap inside the volume of the charge cloud is full and every trap outside "
     "it has decayed by exp(-dwell/release timescale) of its own species, provided the cloud holds enough electrons. "
     "If it does not, each trap inside moves from its decayed occupancy towards full by the same fraction, the one that "
     "uses up exactly the available electrons.",
     ["inputs", "histories", "configurations"],
     "every prior occupancy profile over the pixel volume, cloud volume, dwell time and species mix",
     "tests pin a handful of level tables; the occupancy profile over the pixel is a function of a continuum of states",
     [TM, TMU, TR],
     [("release", TM + " TrapManagerInstantCapture.n_electrons_released"),
      ("capture", TM + " TrapManagerInstantCapture.n_electrons_captured"),
      ("level splitting", TMU + " cy_update_watermark_volumes_for_cloud_below_highest")],
     ["fill fraction at every depth of the pixel before and after a step"], [WM])

prop("A05", "Slow-capture traps follow simultaneous capture and release",
     "Traps with finite capture and release times relax inside the cloud towards the capture/release equilibrium "
     "(rate c/(c+e), speed c+e) and outside it decay at the emission rate, each from its own occupancy. Electrons released "
     "above the cloud join it; the traps it then newly reaches relax from their decayed occupancy. When the cloud cannot "
     "supply the net capture, all occupancies change by a common fraction of that change instead, the one that uses up "
     "exactly the available electrons.",
     ["inputs", "histories", "configurations"],
     "every prior occupancy profile, cloud, dwell time, capture and release timescales, species mix",
     "tests pin five level tables with one set of timescales",
     [TM, TMU],
     [("kinetics", TM + " fill_probabilities_from_dwell_time"),
      ("step", TM + " TrapManager.n_electrons_released_and_captured")],
     ["fill fraction at every depth of the pixel before and after a step"], [WM])

prop("A06", "Lifetime-tracking traps agree with occupancy-tracking traps",
     "Tracking the time since each level was filled gives the same released and captured electrons as tracking its "
     "occupancy, for traps that have a single release lifetime. This includes steps in which the cloud has too few "
     "electrons, for which the recorded times must represent the same occupancies.",
     ["inputs", "histories", "configurations"],
     "every trap state, cloud, dwell time and species mix; continuum traps through an arbitrary decreasing survival function",
     "tests compare two or three steps with plenty of electrons; the too-few-electrons branch of the tracking manager is not run",
     [TM, TR],
     [("conversion", TM + " TrapManagerTrackTime conversions between elapsed times and fill fractions"),
      ("too few electrons", TM + " TrapManagerTrackTime.updated_watermarks_from_capture_not_enough")],
     ["electrons exchanged and electrons held by both kinds of manager"], [WM])

prop("A07", "Trap species combine linearly and independently of their order",
     "Splitting a trap species into two of the same timescale whose densities add up, or listing the species of a group in "
     "another order, does not change the electrons exchanged or the occupancies. The traps of each phase are the given "
     "species at the density scaled by that phase's share, kept separately per phase and trap group.",
     ["inputs", "histories", "configurations"],
     "every trap state, densities, split fraction, permutation, phase share, cloud and dwell time",
     "one test splits one species in half for one image",
     [TM, TMU],
     [("species loop", TMU + " cy_n_trapped_electrons_from_watermarks"),
      ("phase share", TM + " AllTrapManager.__init__")],
     ["return values and occupancies of two managers that must agree"], [WM])

prop("A08", "Saving, restoring and emptying trap states is exact",
     "Restoring trap states recovers exactly what was held at the last save (or empty traps if never saved), whatever "
     "happened in between and however often it is repeated; emptying releases every trap of every phase and group. "
     "The count of electrons currently trapped is the sum over all phases and groups.",
     ["histories", "inputs"],
     "every sequence (within the bound) of steps, saves, restores and empties, with arbitrary trap states",
     "one test makes a single save/restore of one manager",
     [TM], [("save/restore", TM + " AllTrapManager.save, restore, empty_all_traps"),
            ("count", TM + " n_electrons_trapped_currently")],
     ["occupancies and trapped electrons after each operation"], [WM])

prop("B01", "The well-filling model is a bounded, monotonic volume per phase",
     "The cloud volume is 0 for no electrons and up to the notch depth, 1 at and above the full well depth, the power law "
     "of (n - notch)/(depth - notch) in between, never decreases with more electrons, and uses each phase's own "
     "parameters. The three documented ways to evaluate it agree, scalar parameters are replicated to every phase and "
     "lists of the wrong length are refused.",
     ["inputs", "configurations"],
     "every electron number, notch, depth, power and phase",
     "tests evaluate eleven points of three wells",
     [CCD], [("well filling", CCD + " CCD.well_filling_function"), ("replication", CCD + " setters"), ("CCDPhase", CCD)],
     ["CCD.well_filling_function(phase)(n), cloud_fractional_volume_from_n_electrons_and_phase, CCDPhase"])

prop("B02", "Release and capture probabilities follow the exponential rate laws",
     "For every dwell time the probabilities of an empty, full or isolated trap being filled at the end are the solutions "
     "of the rate equations, lie in [0, 1], start at 0, 1 and 1, and compose over consecutive dwells; an infinitely fast "
     "capture fills with certainty. A trap's fill fraction, elapsed time and released electrons are consistent "
     "(mutually inverse, released + remaining = initial).",
     ["inputs"],
     "every dwell time, lifetime, capture time, number of electrons and elapsed time",
     "tests evaluate a few numbers",
     [TM, TR], [("kinetics", TM + " fill_probabilities_from_dwell_time"), ("trap", TR + " Trap")],
     ["fill_probabilities_from_dwell_time and the Trap methods"])

prop("B03", "Continuum-lifetime traps are the weighted mean of single-lifetime traps",
     "A trap with a distribution of release lifetimes has a fill fraction equal to the distribution-weighted mean of the "
     "single-lifetime exponentials with that trap's own parameters: for weights that sum to one it is in [0, 1], decreasing "
     "in time, 1 when just filled, and released + remaining electrons add up over any dwell. The time recovered from a fill "
     "fraction reproduces that fill fraction.",
     ["inputs", "configurations"],
     "every elapsed and dwell time and every positive lifetime distribution, the integral taken as an arbitrary positive "
     "quadrature rule",
     "tests compare narrow Gaussians with one lifetime at a few times",
     [TR], [("integral", TR + " TrapLifetimeContinuumAbstract"), ("log-normal", TR + " TrapLogNormalLifetimeContinuum")],
     ["fill_fraction_from_time_elapsed, time_elapsed_from_fill_fraction, electrons_released_from_time_elapsed_and_dwell_time"])

prop("B04", "The HST ACS preset is physical and as published at every date",
     "For every date from launch on, the HST ACS preset gives three instant-capture species whose densities are in the "
     "published 1.27 : 3.38 : 2.85 ratio with a positive total growing linearly within each calibration epoch, released at "
     "the published times for the operating temperature of that date, with the published well and a one-step readout. "
     "Dates before launch are refused.",
     ["inputs"], "every date (real number), across the temperature change and the SM4 repair",
     "one test evaluates one or two dates", [MA], [("preset", MA + " model_for_HST_ACS")], ["model_for_HST_ACS(date)"])

prop("B05", "Derived trap quantities belong to their own species",
     "The ellipticity change of a species is its density times the published (Israel et al. 2014) function of its release "
     "timescale, and that of a trap manager the sum over its species; a manager's densities per pixel are those of its species, in "
     "order, and a wrong number of new ones is refused. Drawing random densities (Trap.poisson_trap) gives every species in "
     "every column a density of its own - a non-negative whole number of traps divided by the number of rows, distributed around that "
     "species' expected number, the same for the same seed - and changes nothing else: kind, timescales and the given traps stay as "
     "they were.",
     ["inputs", "configurations"], "every density, timescale and draw within the bound, every kind of species",
     "tests evaluate a few species of one kind, whose other attributes they do not look at",
     [TR, TM], [("ellipticity", TR + " Trap.delta_ellipticity"), ("draws", TR + " Trap.poisson_trap"),
                ("densities", TM + " TrapManager.n_traps_per_pixel")],
     ["Trap.delta_ellipticity", "TrapManager.delta_ellipticity", "Trap.poisson_trap", "TrapManager.n_traps_per_pixel"])

prop("C01", "The clock sequence moves charge one pixel, through every phase once",
     "For any number of phases, at each step exactly one phase is high, in order, release fractions sum to one, what a "
     "phase captures comes from the pixel whose cloud is then in that phase and what it releases goes to the nearest high "
     "phase (shared equally when two are equally near). Forcing release away from readout only moves charge released ahead "
     "of the high phase back by one pixel, the pixels reported as accessed are exactly those used, and trap pumping returns "
     "through the same steps.",
     ["configurations", "inputs"], "every number of phases (bound) with every dwell time, both release modes, pumping",
     "tests list the sequences of 1 to 4 phases by hand",
     [ROE], [("sequence", ROE + " _generate_clock_sequence"), ("pixels accessed", ROE + " _generate_pixels_accessed_during_clocking")],
     ["roe.clock_sequence, roe.pixels_accessed_during_clocking"])

prop("C02", "Express multipliers account for every pixel-to-pixel transfer",
     "For every image size, offset, express setting, window and mode, the express multipliers of each row are non-negative "
     "and sum to the number of transfers that row undergoes (row number + 1 + offset), all rows are monitored wherever their "
     "multiplier is non-zero, and a window's matrix is the corresponding part of that of all rows up to the window's end. With "
     "first transfers kept separate and express below the number of rows, each row has exactly one unit first transfer into "
     "empty traps, before its others; integer mode gives integers.",
     ["configurations", "inputs"], "every size, offset, express, window and mode within the bound",
     "tests sample fixed sizes; one loops over a few combinations of the sum only",
     [ROE], [("express matrix", ROE + " express_matrix_and_monitor_traps_matrix_from_pixels_and_express")],
     ["the express and monitor matrices of ROE"])

prop("C03", "Time windows split the readout without losing or repeating transfers",
     "Restricting clocking to a range of time keeps of each row exactly the transfers that happen in that range, in order; "
     "consecutive ranges covering the readout add up to the unrestricted multipliers, also with a window and offset. "
     "Processing an image in consecutive time windows without express, in single-phase readout with the default flags, gives the "
     "same result as in one go.",
     ["configurations", "inputs"], "every size, offset, express, split point and trap response within the bound",
     "tests split one image at one point",
     [ROE, MU, MA], [("time window", ROE + " restrict_time_span_of_express_matrix"), ("monitoring", ROE + " monitor_traps_matrix")],
     ["express matrices of the parts; images of the parts"])

prop("C04", "Charge injection clocks every row over the full device",
     "With charge injection every row undergoes the same number of transfers - the one configured, or by default the number of "
     "rows up to the window's end plus offset of that call - split over the express passes, non-negatively and adding up exactly in both the "
     "integer and the float mode, for every window. Using the readout for one image does not change what it does for the next.",
     ["configurations", "histories", "inputs"], "every size, offset, window, express, number of transfers within the bound; sequences of calls",
     "tests use two sizes, float mode, full window",
     [ROE, MA], [("express matrix", ROE + " ROEChargeInjection")],
     ["the express and monitor matrices of ROEChargeInjection"])

prop("C05", "Trap pumping performs the configured number of pumps per pixel",
     "Each pumped pixel is processed independently of the others, with non-negative multipliers that sum to the number of "
     "pumps, a separate unit first pump when requested, and integers in integer mode; the traps of a pixel keep their state "
     "between its own passes and start empty for the next pixel. An odd number of steps is refused.",
     ["configurations", "inputs"], "every number of pumps, express setting, number of pixels and mode within the bound",
     "tests use a few numbers for a single pixel",
     [ROE, MU], [("express matrix", ROE + " ROETrapPumping")],
     ["the express, monitor and save matrices of ROETrapPumping; pumped images"])

prop("D01", "Clocking moves charge but neither creates nor destroys it",
     "In one pass through the readout the electrons in the image plus those in the traps stay the same except for what is "
     "released past the far edge of the image, each exchange entering the image times its express multiplier and release "
     "fraction, as long as the traps of a pixel do not together exceed its charge (where it is kept at zero). Pixels of a "
     "non-negative image never become negative.",
     ["inputs", "histories", "configurations"], "every non-negative image and every admissible trap response within the size bound, all readout modes",
     "tests check trails of single pixels",
     [MU, ROE, TM], [("inner loop", MU + " cy_clock_charge_in_one_direction")], ["add_cti output vs. recorded trap exchanges"])

prop("D02", "Clocking never touches memory outside the image and its tables",
     "For every accepted image size, window, offset, express and readout mode, all elements read or written by the compiled "
     "clocking loop and trap routines (which run without bounds checks) are inside their arrays, and indices are never "
     "negative.",
     ["inputs", "configurations", "histories"], "all sizes, windows, offsets, express and readout modes within the bound, with every trap response",
     "out-of-bounds accesses do not show in results unless they crash",
     [MU, TMU], [("unchecked indexing", MU), ("unchecked indexing", TMU)], ["bounds-checked execution of the same loops"])

prop("D03", "CTI only affects where it should: causality, columns and windows",
     "Charge in one column (row, for serial clocking) never affects another when traps are emptied between columns, and only "
     "later ones otherwise; pixels outside the requested windows are unchanged (in multi-phase readout: those not adjacent to "
     "them); and in single-phase readout a pixel's result depends only on pixels "
     "no farther from the readout than itself.",
     ["inputs", "configurations"], "every image and every trap response within the size bound, windows, offsets and express settings",
     "tests look at delta functions and lines of fixed brightness",
     [MU, MA], [("loops", MU), ("windows", MA + " add_cti")], ["add_cti of images that differ in one place"])

prop("D04", "Windows and offsets equal the same pixels of a bigger image",
     "In single-phase readout an offset of k gives exactly what prepending k empty rows (columns) would give on the rows that are "
     "kept, without express or with express below the number of rows; a window of columns gives what those columns give in the "
     "full image. Processing a window of rows that starts after empty rows gives the same values as processing the image up to "
     "the window's end (without express, the whole image).",
     ["inputs", "configurations"], "every image, trap response, offset and express setting within the bound",
     "one test compares offsets for one image",
     [MU, ROE, MA], [("offset", ROE + " express matrix"), ("window", MU)], ["add_cti outputs that must agree"])

prop("D05", "Parallel clocking comes first, then serial on the transposed result",
     "Adding both parallel and serial CTI equals adding parallel CTI and then serial CTI to its result, and serial CTI equals "
     "parallel CTI with the same settings on the transposed image. All options (express, offset, window, readout, CCD, traps) of "
     "a direction apply to that direction only; a window given as a single number is that row or column. With a time window the "
     "serial direction acts on the rows that reach the readout register within it, so consecutive ones cover each row once.",
     ["inputs", "configurations"], "every image and trap response within the bound, with different settings in the two directions",
     "tests look at where trails appear",
     [MA], [("pipeline", MA + " add_cti")], ["add_cti outputs that must agree"])

prop("D06", "CTI removal iterates the same model and inverts it to first order",
     "Removal is the fixed-point iteration estimate += image - add_cti(estimate) with exactly the settings given, the given "
     "number of times, starting from the image; zero iterations return the image. An estimate whose model equals the image "
     "is left unchanged, and each iteration changes the error by exactly what the model changes it.",
     ["inputs", "configurations"], "every image, number of iterations within the bound, and every CTI model",
     "tests check that a few images improve",
     [MA], [("iteration", MA + " remove_cti")], ["calls made to the forward model and the value returned"])

prop("D07", "Adding or removing CTI has no side effects and is repeatable",
     "Adding or removing CTI does not modify the image, traps, CCD or readout objects it is given, and repeating a call with the "
     "same objects gives the same result whatever calls were made in between; objects used before behave like new ones, also after a setting is changed on them.",
     ["histories", "inputs"], "every image and trap state within the bound; sequences of calls sharing objects",
     "tests always build fresh objects",
     [MA, MU, TM, ROE], [("copies", MA + " deepcopy"), ("trap copies", TM + " TrapManager.__init__")],
     ["arguments before and after; outputs of repeated calls"])

prop("D08", "Full-frame images keep their frame information through CTI",
     "When the image is a frame with mask, readout corner, scan regions and exposure information, adding and removing CTI returns the "
     "same kind of frame with those unchanged and with the same pixel values as for the bare array, masked pixels being zero.",
     ["inputs", "configurations"], "every image within the bound, with any metadata, any combination of directions",
     "tests use bare arrays only for nearly every case",
     [MA], [("frame", MA + " add_cti, remove_cti")], ["type and attributes of the returned object"])

prop("D09", "Without traps, charge or transfers nothing changes",
     "With no traps, traps of zero density, only zero-dwell steps, or an empty image, the image is returned unchanged, "
     "while any share of traps and any dwell time above zero, however small, takes part; and the result is the same however the single trap, CCD or readout is wrapped (bare, in a list, defaults left out).",
     ["inputs", "configurations"], "every image within the bound, real traps and wells",
     "tests cover one empty image",
     [MA, MU, TM], [("whole pipeline", MA + " add_cti")], ["add_cti output"])

prop("D10", "Trap occupancy carries over between transfers, passes and columns as set",
     "Each exchange finds its traps in the state that the documented history implies: within one pass rows nearer the readout come "
     "first; traps start empty for each pass unless told not to empty for first transfers, when each pass resumes from the state "
     "left for its first row; and columns share traps only when told not to empty between columns.",
     ["histories", "inputs", "configurations"], "every image and every trap response within the bound, all flag combinations",
     "tests use default flags for nearly every case",
     [MU, ROE, TM], [("restore/save", MU), ("save matrix", ROE + " save_trap_states_matrix_from_express_matrix")],
     ["order, states and arguments of trap exchanges; images"])

# ---------------------------------------------------------------------------

prop("D11", "Results do not depend on the units of time and charge",
     "Timescales and dwell times share one unit: multiplying all of them by the same factor changes neither what traps exchange "
     "with a cloud nor an image. Charge, trap densities and well depths share another: multiplying all of them by the same factor "
     "multiplies what is exchanged, held and left in the image by it. No threshold or constant in the model is absolute.",
     ["inputs", "configurations"], "every image, cloud, trap state and dwell time within the bound, real traps and wells",
     "tests use one set of units throughout",
     [TM, TMU, TR, CCD, MU], [("dwell times and timescales", TM + " fill_probabilities_from_dwell_time"),
                              ("clouds", CCD + " well_filling_function"), ("pixels", MU + " cy_clock_charge_in_one_direction")],
     ["electrons exchanged and held per step", "add_cti output"])

prop("D12", "The image may be of any number type and memory layout",
     "CTI is added to and removed from the numbers in the image, whatever array holds them: whole numbers give what the same real "
     "numbers give (nothing is rounded or refused), and transposed, strided, reversed or column-ordered views and parts of larger "
     "arrays give what a fresh copy gives. The array that holds the image is left alone.",
     ["inputs", "configurations"], "every image of whole or real numbers within the bound and any trap response, all layouts and readouts",
     "tests pass fresh arrays of floats only",
     [MA, MU], [("image copy", MA + " add_cti"), ("iteration", MA + " remove_cti"), ("padding", MU + " cy_clock_charge_in_one_direction")],
     ["add_cti and remove_cti output", "the array given"])

TECH = "path-exhaustive symbolic execution of the source + z3 (SMT)"
NOTE = ("Bounded: every path of the listed harness configurations, decided for all real values of the symbolic inputs; "
        "symbolic arithmetic is over the reals (no rounding). Trusts z3, the numpy model (symx/arr.py) and the Cython "
        "translation (symx/cy.py); counterexamples are replayed on a build of the real code.")
NA = {}


def main():
    want = sys.argv[1:]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        have = os.path.exists(os.path.join(HERE, "checks", i + ".py"))
        if have and (not want or i in want) and i not in NA:
            checks.append(dict(
                property=i, quick_cmd="./run.py %s --tier quick" % i, thorough_cmd="./run.py %s --tier thorough" % i,
                evidence_file="evidence/%s.json" % i, technique=TECH, level="other", level_note=NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check yet")))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                       notes="See DESIGN.md. No hooks in /repo are needed."), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
