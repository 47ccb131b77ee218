"""C08: the chosen model has the least error criterion."""
import copy

from anticipy.model_utils import get_s_aic_c_best_result_key

from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

OWNS = ('best',)
ASSUMPTIONS = ['series in the domain of C11 and C12']
SELF_TEST = 12


def scenarios(ctx):
    res = pc.from_tlc(ctx, ctx.pick(200, 2000))
    while len(res) < ctx.pick(450, 4500):
        sc = pc.gen_scenario(ctx.rng, ctx.rng.choice([1, 1, 2, 3]),
                             lib=ctx.rng.random() < .3)
        if ctx.rng.random() < .25:
            # few levels: models with equal errors, perfect fits
            for r in sc['rows']:
                if r['y'] is not None:
                    r['y'] = 1 if ctx.rng.random() < .9 else 2
        if pc.in_domain(sc):
            res.append(sc)
    for sc in res:
        v = copy.deepcopy(sc['cfg'])
        for k in ('trend', 'season', 'naive', 'cal'):
            if v[k]:
                lst = v[k][0]
                if lst and ctx.rng.random() < .4:
                    lst.append(ctx.rng.choice(lst))
                ctx.rng.shuffle(lst)
        sc['cfg2'] = v
        sc['all2'] = ctx.rng.random() < .5
    for _ in range(ctx.pick(60, 600)):
        n = ctx.rng.choice([0, 1, 2, 3, 5, 9])
        res.append(dict(kind='key', keys=ctx.rng.choice(
            ['str', 'pair', 'int', 'date', 'default']), v=[
                ctx.rng.choice(['nan', '-inf', 'inf', ctx.rng.randint(-4, 4),
                                ctx.rng.randint(-999, 999)] +
                               [ctx.rng.randint(-3, 3)] * 3)
                for _ in range(n)], seed=ctx.rng.randint(0, 999)))
    return res


def key(sc):
    """The helper that picks the best of a series of criteria"""
    v = [float(x) for x in sc['v']]
    n = len(v)
    p = np.random.RandomState(sc['seed']).permutation(n)
    idx = dict(str=['k%d' % i for i in p], int=[int(i) + 3 for i in p],
               date=[pd.Timestamp('2020-01-01') + pd.Timedelta(days=int(i))
                     for i in p], default=list(range(n)),
               pair=[('a' if i % 2 else 'b', int(i)) for i in p])[sc['keys']]
    if sc['keys'] == 'pair':
        index = pd.MultiIndex.from_tuples(idx, names=['c1', 'c2']) if n \
            else pd.MultiIndex.from_arrays([[], []], names=['c1', 'c2'])
    else:
        index = pd.Index(idx, dtype=object if not n else None)
    out = get_s_aic_c_best_result_key(pd.Series(v, index=index, dtype=float))
    return [dict(ev='Key', v=[num(x) for x in v], out=[] if out is None else
                 [idx.index(out) + 1 if out in idx else 0])]


def drive(sc):
    if sc.get('kind') == 'key':
        return key(sc)
    out = [pc.run_event(sc, simple=True)]
    rows = [dict(r) for r in sc['rows']]
    pc.add_x(sc, rows)
    df = pc.table(sc, rows)
    sc2 = dict(sc, cfg=sc['cfg2'], all=sc['all2'])
    ra, rb = pc.call(sc, df), pc.call(sc2, df, seed=5)
    full = sc.get('all', True) and sc['all2']
    S = sorted({r['s'] for r in rows}) if sc['sourced'] else [1]
    for s in S:
        out.append(dict(
            ev='Pair', pre='best: ', a=pc.side(sc, sc['rows'], s),
            b=pc.side(sc2, sc['rows'], s),
            ra=pc.digest(sc, ra, s, actuals=True, all_=full),
            rb=pc.digest(sc2, rb, s, actuals=True, all_=full), tol=0))
    return out


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    if e['ev'] == 'Key':
        e['out'] = [] if e['out'] else [1]
        return 'key', tr
    if e['ev'] == 'Pair':
        if not e['ra']:
            return None
        rng.choice(e['ra'])['v'] += 1
        return 'pair', tr
    how = rng.choice(['unmark', 'other', 'two', 'simple', 'rows'])
    best = [m for m in e['meta'] if m['best']]
    fit = [m for m in e['meta'] if m['st'] == 'FIT' and not m['best']]
    if how == 'simple':
        e['simple'] = False
    elif how == 'unmark' and best and e['all']:
        best[0]['best'] = False
    elif how == 'other' and best and e['all']:
        b = best[0]
        o = [m for m in fit if m['s'] == b['s'] and m['rank'] > b['rank']]
        if not o:
            return None
        b['best'], o[0]['best'] = False, True
    elif how == 'two' and best:
        o = [m for m in fit if m['s'] == best[0]['s']]
        if not o:
            return None
        o[0]['best'] = True
    elif how == 'rows':
        d = [d for d in e['data'] if d['best']]
        if not d:
            return None
        d[0]['best'] = False
    else:
        return None
    return how, tr
