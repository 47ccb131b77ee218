"""C19: outlier detection."""
from anticipy import forecast as fc
from anticipy import forecast_models as fm

from lib import *  # noqa: F401,F403
from lib import DAY, np, num, opt, pd, ts
from props import pipe_common as pc

MC = [dict(module='MC_Outlier', thorough_cfg='MC_Outlier_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Outlier'
OWNS = None
ASSUMPTIONS = ['samples are in the order of their dates or x',
               'values are integers, or integers times a power of two',
               'a spike whose excess is exactly at its threshold may or may '
               'not be masked, unless it has 1, 2, 4 or 8 changes']
SELF_TEST = 12


def gen_y(rng):
    """A base with spikes and steps"""
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 80])
    noise = rng.choice([0, 1, 2, 5])
    slope = rng.choice([0, 0, 1, -3])
    size = rng.choice([noise + 1, 4 * noise + 5, 50, 200])
    y = [slope * i + rng.randint(-noise, noise) for i in range(n)]
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if n else 0):
        a, d = rng.randint(0, n - 1), rng.choice([1, 1, 1, 2, 3, 4, 6])
        s = rng.choice([-1, 1]) * rng.randint(1, size)
        if rng.random() < .3:
            a = rng.choice([0, 1, n - 1, n - 2]) % n
        for i in range(a, n if rng.random() < .4 else min(n, a + d)):
            y[i] += s
    return y


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for g in ctx.sample(ctx.gen['MC_Outlier'], ctx.pick(700, 8000)):
        y = [v[0] if v else None for v in g['y']]
        res.append(dict(kind='mask', y=y, w=g['w'], **axis(rng, len(y))))
    while len(res) < ctx.pick(1300, 12000):
        y = gen_y(rng)
        if rng.random() < .2:
            y = [None if rng.random() < .1 else v for v in y]
        res.append(dict(kind='mask', y=y,
                        w=rng.choice([3, 3, 3, 1, 2, 4, 5, 7]),
                        **axis(rng, len(y))))
    while len(res) < ctx.pick(1450, 13500):
        sc = used(rng)
        if sc:
            res.append(sc)
    return res


def axis(rng, n):
    dated = rng.random() < .5
    step = rng.choice([DAY, 7 * DAY, 60]) if dated else \
        rng.choice([1, 1, 2, .5, .25])
    t, v = [], rng.randint(100, 18000) if dated else rng.randint(-50, 50)
    v = v * DAY if dated else v
    for _ in range(n):
        t.append(v)
        v += step * rng.choice([1, 1, 1, 1, 2, 5])
    if n > 1 and rng.random() < .04:
        i = rng.randint(1, n - 1)
        t[i] = t[i - 1]
    return dict(dated=dated, t=t, unit=rng.choice([1, 1, 1, .5, 4]),
                index=rng.choice(['range', 'odd', 'date']))


def used(rng):
    y = gen_y(rng)
    if len(y) < 3:
        return None
    step = rng.choice([DAY, DAY, 0])
    d0 = rng.randint(15000, 18000)
    rows = []
    weighted = rng.random() < .7
    for i, v in enumerate(y):
        w = rng.choice([1, 1, 2]) if weighted else 1
        if rng.random() < .08:
            v = None
        elif weighted and rng.random() < .12:
            v, w = rng.choice([v, 999]), rng.choice([0, None, -1])
        rows.append(dict(s=1, t=(d0 + i) * DAY if step else i - 3, y=v, w=w))
    dup = rng.random() < .08
    if dup:
        i = rng.randint(0, len(rows) - 1)
        rows.insert(i, dict(rows[i]))
    start = rows[rng.randint(0, len(rows) // 2)]['t'] \
        if rng.random() < .3 else None
    cfg = pc.CFG([pc.T('linear'), pc.PR('w1', 0, b=1)], [], naive=rng.choice(
        [[], [pc.NAIVE]]))
    p, q = pc.years(rng, step)
    return dict(kind='used', rows=rows, dated=bool(step), weighted=weighted,
                sourced=False, start=start, p=p, q=q, step=step, cfg=cfg)


def drive(sc):
    if sc['kind'] == 'used':
        return [drive_used(sc)]
    y = np.array([np.nan if v is None else v * sc['unit'] for v in sc['y']],
                 dtype=float)
    n = len(y)
    d = {'date': pd.to_datetime([ts(t) for t in sc['t']])} if sc['dated'] \
        else {'x': np.array(sc['t'])}
    ix = dict(range=range(n), odd=[7 * i % 5 - 1 for i in range(n)],
              date=pd.date_range('2001-01-01', periods=n))[sc['index']]
    df = pd.DataFrame(dict(d, y=y), index=ix)
    keep = df.copy(deep=True)
    res, step, spike = 'ok', [], []
    try:
        a, b = fm.get_model_outliers(df, sc['w'])
        step, spike = [bool(v) for v in a], [bool(v) for v in b]
    except ValueError:
        res = 'rejected'
    return [dict(ev='Mask', y=[[] if v is None else [v] for v in sc['y']],
                 window=sc['w'], res=res,
                 dup=len(set(sc['t'])) < len(sc['t']), step=step,
                 spike=spike, same=bool(df.equals(keep)))]


def drive_used(sc):
    rows = sc['rows']
    pc.add_x(sc, rows)
    pc.note_params(sc['cfg'])
    df = pc.table(sc, rows)
    own = [r for r in rows if sc['start'] is None or r['t'] >= sc['start']]
    use = [r['t'] for r in own if r['y'] is not None and (
        not sc['weighted'] or (r['w'] or 0) > 0)]
    e = dict(ev='Used', res='ok', dup=len(set(use)) < len(use), ra=[], rb=[],
             weights=[],
             rows=[dict(y=[] if r['y'] is None else [r['y']],
                        w=([] if r['w'] is None else [r['w']])
                        if sc['weighted'] else [1]) for r in own])
    try:
        r = pc.call(sc, df, find_outliers=True)
    except ValueError as err:
        if 'multiple values' not in str(err):
            raise
        e['res'] = 'rejected'
        return e
    act = r['data'].loc[r['data'].is_actuals].sort_values(
        'date', kind='mergesort')
    e['weights'] = [opt(v) for v in act.weight]
    e['ra'] = pc.digest(sc, r, 1)
    # the same forecast with the weights of the output
    it = iter(act.weight)
    df2 = df.copy()
    df2['weight'] = [next(it) if sc['start'] is None or v['t'] >= sc['start']
                     else 1 for v in rows]
    e['rb'] = pc.digest(sc, pc.call(sc, df2), 1)
    return e


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['res'] != 'ok':
        e['res'] = 'ok'
        return 'not rejected', tr
    if e['ev'] == 'Used':
        how = rng.choice(['weight', 'digest'])
        if how == 'weight':
            i = rng.randint(0, len(e['weights']) - 1)
            e['weights'][i] = [7]
        else:
            e['ra'] = e['ra'][1:]
            if not e['rb']:
                return None
        return 'used ' + how, tr
    if not e['y']:
        return None
    how = rng.choice(['step', 'spike', 'short', 'same'])
    i = rng.randint(0, len(e['y']) - 1)
    if how == 'step':
        e['step'][i] = not e['step'][i]
    elif how == 'spike':
        if any(e['spike']):
            return None
        e['spike'][i] = True
    elif how == 'short':
        e['step'].pop()
    else:
        e['same'] = False
    return how, tr
