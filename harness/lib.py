"""Shared by the property drivers: tables, probe models, generators."""
import numpy as np
import pandas as pd

from anticipy.forecast_models import ForecastModel
from enc import (day, days, fix, isnull, minutes, num, opt, ranks, time_or_x,  # noqa: F401
                 ts)

DAY = 1440
YEARS = {'H': 8760, 'D': 365, 'W': 52, 'M': 12, 'Q': 4, 'Y': 1}


def probe_x(name='probe_x'):
    """A model without parameters that returns its x."""
    return ForecastModel(
        name, 0, lambda a_x, a_date, params, is_mult=False, **k:
        np.asarray(a_x, dtype=float))


def years_ok(p, q, units):
    """Is floor(years * units) unaffected by rounding of p / q ?"""
    return int(np.floor((p / q) * units)) == (p * units) // q


def frame(rows, cols=('date', 'x', 'y', 'weight')):
    """rows: dicts with t (minutes), x, y, w"""
    d = {}
    if 'date' in cols:
        d['date'] = [ts(r['t']) for r in rows]
    if 'x' in cols:
        d['x'] = [r['x'] for r in rows]
    if 'y' in cols:
        d['y'] = np.array([np.nan if r['y'] is None else r['y']
                           for r in rows], dtype=float)
    if 'weight' in cols:
        d['weight'] = np.array([np.nan if r['w'] is None else r['w']
                                for r in rows], dtype=float)
    return pd.DataFrame(d)


MONTHLY = ('MS', 'M', 'QS', 'Q', 'YS', 'Y')


def points(f, n, start, tod=0):
    """n grid points (minutes) of pandas frequency f from day `start`."""
    i = pd.date_range(day(start), periods=n, freq=f)
    return [minutes(v) + tod for v in i]


def monday_x(tmins):
    """Whole days from the Monday of the week of the first instant."""
    d0 = tmins[0] // DAY
    mon = d0 - (d0 + 3) % 7
    base = mon * DAY + tmins[0] % DAY
    return [(t - base) // DAY for t in tmins]


def walk(rng, n, lo=-9, hi=9, start=0):
    v, r = start, []
    for _ in range(n):
        v += rng.randint(lo, hi)
        r.append(v)
    return r
