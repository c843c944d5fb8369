"""Reference semantics of the accumulators, computed in exact Python arithmetic."""
from fractions import Fraction
import numpy as np
import higra as hg

NAMES = ["min", "max", "mean", "counter", "sum", "prod", "first", "last", "argmin", "argmax"]
INT_TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
TYPES = INT_TYPES + ["float32", "float64"]


def acc(name):
    return getattr(hg.Accumulators, name)


def limits(dt):
    dt = np.dtype(dt)
    if dt.kind == "f":
        return -np.inf, np.inf
    f = np.iinfo(dt)
    return int(f.min), int(f.max)


def value(name, vals, dt):
    """Accumulation of the scalars `vals`; None: not specified."""
    lo, hi = limits(dt)
    integer = np.dtype(dt).kind != "f"
    if name == "counter":
        return len(vals)
    if not vals:
        return {"min": hi, "max": lo, "mean": 0, "sum": 0, "prod": 1, "first": None, "last": None,
                "argmin": -1, "argmax": -1}[name]
    if name == "min":
        return min(vals)
    if name == "max":
        return max(vals)
    if name == "sum":
        return sum(vals)
    if name == "mean":
        f = Fraction(0)
        for v in vals:
            f += v if isinstance(v, Fraction) else Fraction(v)
        f /= len(vals)
        return (int(f) if integer else f)    # int(): toward zero, as the integer division of the type
    if name == "prod":
        r = 1
        for v in vals:
            r *= v
        return r
    if name == "first":
        return vals[0]
    if name == "last":
        return vals[-1]
    if name == "argmin":
        return vals.index(min(vals))
    if name == "argmax":
        return vals.index(max(vals))


def num(v):
    return float(v) if isinstance(v, Fraction) else v
