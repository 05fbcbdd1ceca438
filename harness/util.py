"""Comparison helpers for the checks."""
import copy
import math
import struct

import numpy as np

from .core import Violation, expect


def bits(x):
    return struct.pack("<d", float(x))


def same_bits(a, b):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def same(a, b):
    """Exact equality of numbers up to the sign of zero; NaN never equal."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(a == b))


def close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(
        np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= atol + rtol * np.abs(b))
    )


def angdiff(a, b):
    d = abs(float(a) - float(b)) % 360.0
    return min(d, 360.0 - d)


def frozen(x):
    """A deep, comparable snapshot of nested lists/dicts/arrays."""
    if isinstance(x, np.ndarray):
        return ("ndarray", x.dtype.str, x.shape, x.tobytes() if x.dtype != object else tuple(frozen(v) for v in x.ravel()))
    if isinstance(x, dict):
        return ("dict", tuple((k, frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(frozen(v) for v in x))
    if isinstance(x, float):
        return ("float", bits(x))
    return (type(x).__name__, copy.deepcopy(x))


def raises(fn, exc=Exception):
    """True if fn raises one of exc; other exceptions propagate."""
    try:
        fn()
    except exc:
        return True
    return False


def must_raise(what, fn, exc=Exception):
    if not raises(fn, exc):
        raise Violation(f"{what} was accepted")


def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, float))))


__all__ = [n for n in dir() if not n.startswith("_")]
