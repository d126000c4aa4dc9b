"""Express matrices."""


def matrices(W, roe, pixels, **k):
    em, mon = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(pixels=pixels, **k)
    W.check(len(em.shape) == 2 and tuple(em.shape) == tuple(mon.shape), "two matrices of one shape")
    return em, mon


def column(em, c):
    t = 0.0
    for e in range(em.shape[0]):
        t = t + em[e, c]
    return t


def whole(W, x):
    """x is an integer"""
    if W.symbolic and hasattr(x, "e"):
        import z3
        from symx import core
        return core.SymBool(z3.IsInt(core.to_real(x)))
    return abs(x - round(float(x))) < 1e-9


def zero(x):
    return not hasattr(x, "e") and float(x) == 0
