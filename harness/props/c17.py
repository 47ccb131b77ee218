"""C17: calendar and dummy models."""
from props.models_common import *

MC = [dict(module='MC_Calendar', thorough_cfg='MC_Calendar_thorough.cfg')]
OWNS = ['mask']
SELF_TEST = 15
ASSUMPTIONS = ['dates are at midnight; the holidays of the calendars are '
               'those of spec/Calendar.tla, years 1980 to 2060']
KINDS = ['calendar_uk', 'calendar_us', 'calendar_ita'] * 4 + [
    'x', 't', 't', 'holiday', 'dummies', 'dummies', 'weekday<5',
    'christmas', 'month_start']


def scenarios(ctx):
    return [dict(kind='mask', what=rng_kind, seed=ctx.rng.randint(0, 10 ** 6),
                 n=3) for rng_kind in KINDS
            for _ in range(ctx.pick(40, 500))]


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    how = rng.choice(['value', 'drop', 'np'])
    if how == 'value':
        e['out'][rng.randrange(len(e['out']))] += 1
    elif how == 'drop':
        e['out'].pop()
    else:
        e['np'] += 1
    return how, tr
