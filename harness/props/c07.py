"""C07: status of every candidate."""
from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

OWNS = ('status',)
ASSUMPTIONS = ['series in the domain of C11 and C12']
SELF_TEST = 12


def scenarios(ctx):
    res = pc.from_tlc(ctx, ctx.pick(250, 2500))
    while len(res) < ctx.pick(550, 5500):
        sc = pc.gen_scenario(ctx.rng, ctx.rng.choice([1, 1, 2, 3]),
                             lib=ctx.rng.choice([0, 0, 'ramp', 'all', 'all']))
        if pc.in_domain(sc):
            res.append(sc)
    return res


def drive(sc):
    return [pc.run_event(sc, simple=False)]


def corrupt(tr, rng, sc):
    e = tr[0]
    if not e['meta']:
        return None
    m = rng.choice(e['meta'])
    how = rng.choice(['status', 'np', 'cost'])
    if how == 'status':
        m['st'] = 'NO-FIT' if m['st'] != 'NO-FIT' else 'TS_TOO_SHORT'
    elif m['st'] != 'FIT':
        return None
    elif how == 'np':
        m['np'] += 1
    else:
        m['cost'] = 2000000001
    return how, tr
