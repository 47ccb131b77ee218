"""C01: normalization of the input."""
from props.norm_common import *  # noqa: F401,F403
from props import norm_common as nc

OWNS = ('norm',)
ASSUMPTIONS = ['sources are text and not null', 'dates without time zone',
               'index labels are integers, dates or text']
SELF_TEST = 12


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for d in nc.from_mc(ctx, ctx.pick(900, 6000)):
        res.append(dict(d=d, fmt=nc.gen_fmt(rng, d)))
    while len(res) < ctx.pick(2200, 20000):
        d = nc.gen_desc(rng, rng.choice([12, 30]))
        f = nc.gen_fmt(rng, d)
        if rng.random() < .03 and not f.get('series') and d['rows'] and \
                d['cols']:
            f['novalue'] = True
            f.pop('junk', None)
        res.append(dict(d=d, fmt=f))
    return res


def drive(sc):
    return [nc.norm_event(sc['d'], sc['fmt'])]


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['res'] != 'ok' or not e['out']:
        return None
    how = rng.choice(['drop', 'dup', 'swap', 'x', 'w', 't', 's', 'mod',
                      'col'])
    r = rng.choice(e['out'])
    if how == 'drop':
        e['out'].remove(r)
    elif how == 'dup':
        e['out'].append(dict(e['out'][-1]))
    elif how == 'swap':
        if len(e['out']) < 2 or (e['out'][0]['s'], e['out'][0]['x']) == (
                e['out'][-1]['s'], e['out'][-1]['x']):
            return None
        e['out'].reverse()
    elif how == 'x':
        r['x'] += 1
    elif how == 'w':
        r['w'] = [[7]]
    elif how == 't':
        r['t'] = [5]
    elif how == 's':
        r['s'] += 1
    elif how == 'mod':
        e['same'] = False
    else:
        e['cols'].append('junk')
    return how, tr
