"""numba is not installed here: its njit only compiles what it is given, so
the functions run as they are written, under numpy."""
import sys
import types


def njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


try:
    import numba  # noqa
except Exception:  # noqa
    m = types.ModuleType("numba")
    m.njit = m.jit = njit
    m.prange = range
    sys.modules["numba"] = m
