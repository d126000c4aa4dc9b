"""Readout modes for the clocking checks."""


def roe(W, mode, phases, first=True, between=True, force=True, dtype="float", unit=1.0, **k):
    ac = W.ac
    dt = dict(int=W.INT, float=W.FLOAT)[dtype]
    dwell = [(1.0 + 0.25 * s) * unit for s in range(phases)]
    if mode == "injection":
        return ac.ROEChargeInjection(dwell_times=dwell, empty_traps_between_columns=between,
                                     force_release_away_from_readout=force, express_matrix_dtype=dt, **k)
    if mode == "pumping":
        return ac.ROETrapPumping(dwell_times=[(1.0 + 0.25 * s) * unit for s in range(2 * phases)],
                                 empty_traps_for_first_transfers=first, express_matrix_dtype=dt, **k)
    return ac.ROE(dwell_times=dwell, empty_traps_for_first_transfers=first, empty_traps_between_columns=between,
                  force_release_away_from_readout=force, express_matrix_dtype=dt, **k)


def rows(img):
    return [[img[r, c] for c in range(img.shape[1])] for r in range(img.shape[0])]
