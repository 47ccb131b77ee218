"""C02: the forecast does not depend on how the input table is written."""
from props.norm_common import *  # noqa: F401,F403
from props import norm_common as nc
from props import pipe_common as pc
from props.pipe_common import CFG, NAIVE, NULL, PR, SNAIVE, T

OWNS = ('same',)
ASSUMPTIONS = ['series in the domain of C11 and C12',
               'any order of the rows: series with one sample per date, '
               'spaced by days or more, and models that are linear in '
               'their parameters; within tolerance of the solver',
               'interval bounds: same random state in both calls']
SELF_TEST = 12
WAYS = ['names', 'junk', 'index', 'text', 'series', 'int', 'weights',
        'labels', 'order', 'mix', 'mix', 'mix', 'xcol']


def scenarios(ctx):
    rng, res = ctx.rng, []
    while len(res) < ctx.pick(300, 4000):
        if rng.random() < .2:
            sc = shuffled(rng)
            if sc:
                res.append(sc)
            continue
        way = rng.choice(WAYS)
        sc = pc.gen_scenario(rng, rng.choice([1, 1, 1, 2, 3]), nmax=25,
                             lib=rng.choice([False, True, 'ramp']),
                             dup=rng.random() < .3)
        if way == 'series':
            sc['sourced'] = sc['weighted'] = False
            if len({r['s'] for r in sc['rows']}) > 1 or not sc['dated'] and \
                    rng.random() < .7:
                continue
        if way == 'weights':
            sc['weighted'] = True
            for r in sc['rows']:
                r['w'] = 1
        if way == 'int':
            for r in sc['rows']:
                r['y'] = 3 if r['y'] is None else r['y']
        if sc['dated'] and rng.random() < .15 and way != 'series':
            sc['with_x'] = True
            for i, r in enumerate(sorted(sc['rows'], key=lambda r: r['t'])):
                r['x'] = 2 * i
        if rng.random() < .3:
            sc['cfg']['mode'] = rng.choice(['auto', 'both'])
        if rng.random() < .1 and sc['dated']:
            sc['outliers'] = True
            if len({(r['s'], r['t']) for r in sc['rows']}) < len(sc['rows']):
                continue
        if not pc.in_domain(sc):
            continue
        sc['names'] = sorted(sc['names'])
        sc['way'], sc['shift'] = way, False
        describe(rng, sc, way)
        res.append(sc)
    return res


def describe(rng, sc, way):
    """Two descriptions a, b (with formats fa, fb) of the rows."""
    rows = [dict(r) for r in sc['rows']]
    if not sc['dated']:
        for r in rows:
            r['x'] = r['t']
    D = [dict(s=r['s'], i=k, t=r['t'] if sc['dated'] else 0,
              x=r.get('x', 0), y=[] if r['y'] is None else [r['y']],
              w=[] if r['w'] is None else [r['w']])
         for k, r in enumerate(rows)]
    cols = ['date'] if sc['dated'] else ['x']
    if sc.get('with_x'):
        cols.append('x')
    if sc['weighted']:
        cols.append('weight')
    if sc['sourced']:
        cols.append('source')
    a = dict(cols=list(cols), index='int', rows=D, names=sc['names'])
    b = dict(cols=list(cols), index='int', rows=[dict(r) for r in D],
             names=sc['names'])
    fa, fb = {}, {}
    has = lambda c: way in (c,) or way == 'mix' and rng.random() < .5  # noqa: E731
    if has('names') or way == 'junk':
        other = dict(y=['value', 'Y', 'a b'], weight=['w', 'importance'],
                     x=['ix', 'position'], date=['day', 'when'],
                     source=['src', 'id'])
        fb['cols'] = {r: rng.choice(other[r]) for r in nc.ROLES
                      if r in cols + ['y'] and (way == 'names' or
                                                rng.random() < .7)}
    if has('junk'):
        fb['junk'] = {'extra': 5, 'note': 'abc', 'model': 'zz', 'res': 1}
        if rng.random() < .5:
            fb['junk']['index'] = 3
        for r in fb.get('cols', {}):
            if rng.random() < .6:
                fb['junk'][r] = rng.choice([3, 'abc', 0])
    if sc['dated'] and (has('index') or way == 'series'):
        if way == 'series':
            a['index'] = 'date'
        b['cols'].remove('date')
        b['index'] = 'date'
        fb['iname'] = rng.choice([None, 'date', 'idx'])
        fb.get('cols', {}).pop('date', None)
        fb.get('junk', {}).pop('date', None)
    if not sc['dated'] and (way == 'series' or has('xcol') and
                            not sc['sourced']):
        b['cols'].remove('x')
        for k, r in enumerate(b['rows']):
            r['i'] = rows[k]['t']
        fb.get('cols', {}).pop('x', None)
        fb.get('junk', {}).pop('x', None)
        if way == 'series':
            a['rows'] = b['rows']
            a['index'] = 'int'
    elif has('labels') and b['index'] == 'int':
        how = rng.choice(['neg', 'same', 'rev', 'text'])
        n = len(D)
        for k, r in enumerate(b['rows']):
            r['i'] = dict(neg=-3 * k, same=0, rev=n - k, text=k)[how]
        if how == 'text':
            b['index'] = 'other'
    if has('text'):
        fb['dtext'] = rng.choice(['text', 'long', 'date', 'py'])
    if way == 'series':
        fb['series'] = True
        fb['sname'] = rng.choice([None, 'y'])
    if has('int'):
        fb['int'] = True
    if has('order'):
        fb['order'] = rng.randint(1, 9)
    if has('weights') and sc['weighted'] and all(
            r['w'] == 1 for r in sc['rows']):
        b['cols'].remove('weight')
        fb.get('cols', {}).pop('weight', None)
        fb.get('junk', {}).pop('weight', None)
    sc.update(a=a, b=b, fa=fa, fb=fb)


def shuffled(rng):
    """Row order: x are shifted by whole weeks."""
    step = rng.choice([DAY, DAY, 7 * DAY, 'MS', 'M', 'QS'])
    n = rng.randint(14, 45)
    ns = rng.choice([1, 1, 2])
    rows = []
    for s in range(1, ns + 1):
        rows += pc.gen_series(rng, s, step, n, gap=rng.choice([0, .1]),
                              unused=rng.choice([0, .2]))
    # (sums of them have a unique best fit, in any origin of x)
    season = rng.choice([[], [PR('w2', 0, w=1)], [T('season_wday'), NULL]
                         if step == DAY and n > 30 else [NULL]])
    cfg = CFG([T('linear'), PR('w1', 0, a=1, w=2)], season,
              naive=rng.choice([None, [NAIVE], [NAIVE, SNAIVE]]), mode='add')
    p, q = pc.years(rng, step)
    sc = dict(rows=rows, dated=True, weighted=rng.random() < .7,
              sourced=ns > 1, p=p, q=q, step=step, all=True, cfg=cfg,
              start=None, names=['Aa', 'b'], way='rows', shift=True)
    if not pc.in_domain(sc):
        return None
    if not sc['weighted']:
        for r in rows:
            r['w'] = 1
    for s in range(1, ns + 1):
        if sum(r['y'] is not None and (r['w'] or 0) > 0 for r in rows
               if r['s'] == s) < 12:
            return None
    describe(rng, sc, rng.choice(['rows', 'rows', 'names', 'index']))
    how = rng.choice(['shuffle', 'reverse', 'swap'])
    R = sc['b']['rows']
    if how == 'shuffle':
        rng.shuffle(R)
    elif how == 'reverse':
        R.reverse()
    else:
        R[0], R[-1] = R[-1], R[0]
    return sc


def drive(sc):
    res = []
    for d, f in ((sc['a'], sc['fa']), (sc['b'], sc['fb'])):
        obj, kw = nc.build(d, f)
        if sc.get('outliers'):
            kw['find_outliers'] = True
        r = pc.call(sc, obj, **kw)
        out = []
        for s in sorted({r_['s'] for r_ in sc['rows']}):
            out += [dict(k='%d %s' % (s, e['k']), v=e['v'])
                    for e in pc.digest(sc, r, s, exact=not sc['shift'],
                                       actuals=True)]
        if not sc['shift']:
            q = [c for c in r['forecast'].columns if c[0] == 'q']
            out.append(dict(k='columns %s %s' % (
                list(r['forecast'].columns), list(r['data'].columns)
                if sc['way'] not in ('weights',) and
                d['cols'].count('weight') else ''),
                v=pc.crc([repr(v) for v in r['forecast'][q].values])))
        res.append(out)
    if any('columns' in e['k'] for e in res[0]) and \
            ('weight' in sc['a']['cols']) != ('weight' in sc['b']['cols']):
        for o in res:
            o.pop()
    return [dict(ev='Same', a=nc.plain(sc['a']), b=nc.plain(sc['b']),
                 shift=sc['shift'], ra=res[0], rb=res[1],
                 tol=3 if sc['shift'] else 0)]


def corrupt(tr, rng, sc):
    e = tr[0]
    how = rng.choice(['value', 'lost', 'sample', 'key', 'weight'])
    if how == 'value':
        r = rng.choice(e['rb'])
        if not isinstance(r['v'], int):
            return None
        r['v'] += 1000 + abs(r['v'])
    elif how == 'lost':
        e['ra'].pop()
    elif how == 'key':
        rng.choice(e['ra'])['k'] += '!'
    elif how == 'sample':
        r = rng.choice(e['a']['rows'])
        r['y'] = [555]
    else:
        if 'weight' not in e['a']['cols']:
            return None
        rng.choice(e['a']['rows'])['w'] = [9]
    return how, tr
