"""Lets xgcm's vertical interpolation run without numba.

xgcm compiles its interpolation kernels with numba, which is not installed here.  The kernels
are ordinary Python; this stand-in only replaces the compiler, by a loop over columns."""
import sys
import types

import numpy as np


def guvectorize(signatures, layout, **_):
    def deco(f):
        def one(*args):
            out = np.empty(len(args[2]))
            f(*args, out)
            return out

        return np.vectorize(one, signature=layout)

    return deco


class _Type:
    def __getitem__(self, k):
        return self


def install():
    import xgcm.grid as g
    if getattr(g, "numba", None) is not None:
        return
    m = types.ModuleType("numba")
    m.guvectorize = guvectorize
    m.boolean = m.float32 = m.float64 = _Type()
    sys.modules["numba"] = m
    try:
        import xgcm.transform as t
    finally:
        del sys.modules["numba"]
    g.numba = m
    g.linear_interpolation = t.linear_interpolation
    g.conservative_interpolation = t.conservative_interpolation
