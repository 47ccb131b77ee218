"""C25: formulas of the predefined models."""
from props.models_common import *

MC = [dict(module='MC_Calendar', thorough_cfg='MC_Calendar_thorough.cfg')]
OWNS = ['formula']
SELF_TEST = 20
ASSUMPTIONS = [
    'integer x and parameters; exponents of the models based on the '
    'exponential function are multiples of ln(2); Fourier and sigmoid '
    'models to 10^-4 times the sum of the amplitudes']


def scenarios(ctx):
    return [dict(kind='formula', name=n, seed=ctx.rng.randint(0, 10 ** 6),
                 n=6) for n in FORMULAS for _ in range(ctx.pick(40, 400))]


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    if rng.random() < .3 and len(e['out']) > 1:
        e['out'].pop()
        return 'length', tr
    e['out'][rng.randrange(len(e['out']))] += 1 if e['n'] not in (
        'sigmoid', 'season_fourier_yearly') else 800
    return e['n'], tr
