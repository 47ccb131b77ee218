"""C03: every source is forecast on its own samples only."""
from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

OWNS = ('src', 'out: actuals')
ASSUMPTIONS = ['series in the domain of C11 and C12',
               'interval bounds depend on the random state: C18 relates them '
               'to the residuals of their own source']
SELF_TEST = 12


def scenarios(ctx):
    res = pc.from_tlc(ctx, ctx.pick(150, 1500))
    while len(res) < ctx.pick(330, 4000):
        sc = pc.gen_scenario(ctx.rng, ctx.rng.choice([2, 2, 3, 4, 6]),
                             nmax=ctx.rng.choice([14, 30]),
                             lib=ctx.rng.random() < .15)
        if ctx.rng.random() < .15:
            sc['cfg']['mode'] = 'auto'
        if ctx.rng.random() < .3:
            # one source ends long before the others, or has no usable rows
            s = sc['rows'][0]['s']
            if sc['start'] is None and ctx.rng.random() < .5:
                sc['start'] = max(r['t'] for r in sc['rows']
                                  if r['s'] == s) + 1
            else:
                for r in sc['rows']:
                    if r['s'] == s:
                        r['y'] = None
        if not sc['dated'] and sc.get('sourced') and ctx.rng.random() < .5:
            sc = pc.number(sc, ctx.rng.randint(0, 9))
        if pc.in_domain(sc):
            res.append(sc)
    return res


def drive(sc):
    rows = [dict(r) for r in sc['rows']]
    pc.add_x(sc, rows)
    full = pc.call(sc, pc.table(sc, rows))
    out = []
    known = sc['cfg']['mode'] != 'auto'
    if known:
        out.append(pc.run_event(sc, simple=False))
    for s in sorted({r['s'] for r in rows}):
        own = [r for r in rows if r['s'] == s]
        alone = pc.call(sc, pc.table(sc, own), seed=11)
        pre = 'src: '
        out.append(dict(
            ev='Pair', pre=pre, a=pc.side(sc, sc['rows'], s),
            b=pc.side(sc, [r for r in sc['rows'] if r['s'] == s], s),
            ra=pc.digest(sc, full, s, actuals=True),
            rb=pc.digest(sc, alone, s, actuals=True), tol=0))
    return out


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    if e['ev'] == 'Run':
        if not e['data']:
            return None
        how = rng.choice(['label', 'lost'])
        if how == 'label':
            rng.choice(e['data'])['s'] = 0
        elif len({d['s'] for d in e['data']}) > 1:
            s = e['data'][0]['s']
            e['data'] = [d for d in e['data'] if d['s'] != s]
        else:
            return None
        return how, tr
    if not e['ra']:
        return None
    how = rng.choice(['value', 'row'])
    if how == 'value':
        rng.choice(e['ra'])['v'] += 1
    else:
        e['rb'].pop()
    return 'pair ' + how, tr
