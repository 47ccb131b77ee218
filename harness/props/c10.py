"""C10: output tables."""
from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

OWNS = ('out', 'fc')
ASSUMPTIONS = ['series in the domain of C11 and C12',
               'values of models with parameters are checked to exist, not '
               'to be equal to given numbers (C05, C14, C22)']
SELF_TEST = 12


def scenarios(ctx):
    res = pc.from_tlc(ctx, ctx.pick(300, 3000))
    while len(res) < ctx.pick(600, 6000):
        sc = pc.gen_scenario(ctx.rng, ctx.rng.choice([1, 1, 2, 3]),
                             nmax=ctx.rng.choice([20, 40]))
        if pc.in_domain(sc):
            res.append(sc)
    return res


def drive(sc):
    return [pc.run_event(sc, simple=False)]


def corrupt(tr, rng, sc):
    e = tr[0]
    tab = rng.choice(['data', 'fc'])
    rows = e[tab]
    how = rng.choice(['drop', 'dup', 'value', 'date', 'act'])
    if not rows:
        return None
    r = rng.choice(rows)
    if how == 'drop':
        rows.remove(r)
    elif how == 'dup':
        rows.append(dict(r))
    elif how == 'value':
        if not r['act'] and tab == 'data':
            return None
        r['y'] = [r['y'][0] + 1] if r['y'] and r['y'][0] < 10 ** 9 else [77]
    elif how == 'date':
        r['t'] += 1
    else:
        r['act'] = not r['act']
    return tab + ' ' + how, tr
