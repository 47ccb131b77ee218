"""Encoding of the implementation's values for the specification (see
spec/Prelude.tla)."""
import math

import numpy as np
import pandas as pd

NAN, PINF, NINF, INEXACT = (2000000001, 2000000002, 2000000003, 2000000004)
LIM = 1999999999


def num(v, scale=1, tol=1e-6):
    """A float that should be an integer (after scaling): that integer."""
    if v is None:
        return NAN
    v = float(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return PINF if v > 0 else NINF
    v = v * scale
    r = round(v)
    if abs(r) > LIM or abs(v - r) > tol * max(1.0, abs(v)):
        return INEXACT
    return int(r)


def fix(v, scale):
    """A float rounded to a fixed-point number with `scale` units."""
    if v is None:
        return NAN
    v = float(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return PINF if v > 0 else NINF
    r = round(v * scale)
    return int(r) if abs(r) <= LIM else INEXACT


def isnull(v):
    return v is None or v is pd.NaT or (
        not isinstance(v, str) and bool(pd.isnull(v)))


def opt(v, f=num):
    return [] if isnull(v) else [f(v)]


_EPOCH = pd.Timestamp('1970-01-01')


def minutes(ts):
    """A timestamp in minutes since 1970; INEXACT if it has seconds."""
    if isnull(ts):
        return NAN
    d = pd.Timestamp(ts) - _EPOCH
    m, r = divmod(d.value, 60 * 10 ** 9)
    return int(m) if r == 0 else INEXACT


def days(ts):
    """A date in days since 1970; INEXACT if it has a time of day."""
    m = minutes(ts)
    if m in (NAN, INEXACT) or m % 1440:
        return INEXACT
    return m // 1440


def ts(m):
    return _EPOCH + pd.Timedelta(minutes=int(m))


def day(d):
    return _EPOCH + pd.Timedelta(days=int(d))


def ranks(values):
    """Dense ranks (1-based) of a list of comparable values."""
    s = {v: i + 1 for i, v in enumerate(sorted(set(values)))}
    return [s[v] for v in values]


def time_or_x(v):
    """The 'date' column of outputs: minutes for timestamps, x otherwise."""
    if isinstance(v, (int, float, np.integer, np.floating)):
        return num(v)
    return minutes(v)
