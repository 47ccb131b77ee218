"""C11: frequency detection and forecast grids."""
from anticipy import forecast as fc
from anticipy.model_utils import detect_freq, get_s_x_extrapolate

from lib import *

MC = [dict(module='MC_Axis')]
CONF = 'Conf_Axis'
OWNS = ('freq', 'grid', 'run')
ASSUMPTIONS = [
    'dates of calendar frequencies lie on month/quarter/year starts or ends',
    'horizons p/q years whose floor is not affected by floating point',
    'TLC evaluates the specification correctly; pandas represents instants '
    'exactly']

FREQS = ['H', 'D', 'W-MON', 'W-TUE', 'W-WED', 'W-THU', 'W-FRI', 'W-SAT',
         'W-SUN', 'MS', 'M', 'QS', 'Q', 'YS', 'Y']
YS = [(0, 1), (1, 1), (2, 1), (1, 2), (3, 2), (1, 4), (3, 4), (7, 2), (1, 12),
      (5, 12), (1, 7), (11, 10), (1, 365), (1, 1000)]


def horizon(rng, units, cap):
    """Years p / q, often right before, at, or after a whole number of
    samples, and long ones"""
    if rng.random() < .5:
        return rng.choice(YS)
    if rng.random() < .3:
        return rng.randint(4, max(4, min(14, cap // units))), 1
    cap = min(cap, 100 * units)
    return 10 * rng.randint(1, cap) + rng.choice([-1, 0, 1, 5]), 10 * units


def horizon_ok(f, p, q, cap):
    u = YEARS[f[0]]
    return years_ok(p, q, u) and (p * u) // q <= cap


def gen_dates(rng, f, n):
    tod = rng.choice([0, 0, 630]) if f in ('H', 'D') or f[0] == 'W' else 0
    pts = points(f, n, rng.randint(16000, 20500), tod)
    keep = [t for i, t in enumerate(pts)
            if i in (0, n - 1) or rng.random() < .8]
    if rng.random() < .3 and len(keep) > 2:   # sparse
        keep = [keep[0]] + [t for t in keep[1:-1] if rng.random() < .4] + \
            [keep[-1]]
    return keep, pts


def sparse(f, t):
    """No two samples are adjacent in frequency f: their spacing may be
    taken for that of another frequency, on whose grid they are not."""
    if f in 'HD' or f[0] == 'W':
        step = dict(H=60, D=DAY).get(f, 7 * DAY)
        return len(t) > 2 and step not in [b - a for a, b in zip(t, t[1:])]
    return len(t) > 2 and not any(
        points(f, 2, a // DAY)[1] == b for a, b in zip(t, t[1:]))


def _hide(rng, n):
    return [i for i in range(n) if rng.random() < (.3 if i == n - 1 else .1)]


def scenarios(ctx):
    rng = ctx.rng
    res = []
    g = ctx.gen.get('MC_Axis', [])
    for s in ctx.sample(g, ctx.pick(260, 1500)):
        if not years_ok(s['p'], s['q'], YEARS[s['f'][0]]):
            continue
        if sparse(s['f'], s['have']):
            continue
        res.append(dict(kind='run', t=s['have'], w=[1] * len(s['have']),
                        p=s['p'], q=s['q'], start=None, order=0))
    # arbitrary spacings: detection only
    for _ in range(ctx.pick(150, 1500)):
        n = rng.randint(1, 6)
        t = [rng.randint(15000, 21000) * DAY + rng.choice([0, 0, 61])]
        steps = [30, 59, 60, 61, 120, 1379, 1380, 1381, 1440, 2880, 6 * DAY,
                 7 * DAY, 8 * DAY, 14 * DAY, 27 * DAY, 28 * DAY, 29 * DAY,
                 30 * DAY, 31 * DAY, 32 * DAY, 88 * DAY, 89 * DAY, 90 * DAY,
                 91 * DAY, 92 * DAY, 93 * DAY, 364 * DAY, 365 * DAY,
                 366 * DAY, 367 * DAY]
        base = rng.choice(steps)
        for _ in range(n):
            t.append(t[-1] + rng.choice([base, base, 0,
                                         max(base, rng.choice(steps))]))
        rng.shuffle(t)
        res.append(dict(kind='freq', t=t))
    for f in FREQS:
        for _ in range(ctx.pick(4, 30)):
            n = rng.randint(1, 12)
            t = points(f, n, rng.randint(15000, 21000))
            t = t + rng.sample(t, rng.randint(0, len(t)))
            rng.shuffle(t)
            res.append(dict(kind='freq', t=t))
    # grids of all frequencies over long horizons
    for f in FREQS:
        for _ in range(ctx.pick(10, 60)):
            p, q = horizon(rng, YEARS[f[0]], ctx.pick(800, 4000))
            if not horizon_ok(f, p, q, ctx.pick(800, 4000)):
                continue
            t = points(f, rng.randint(1, 30), rng.randint(15000, 21000),
                       rng.choice([0, 0, 600]) if f in ('H', 'D') or
                       f[0] == 'W' else 0)
            # the last actual may lie off the grid
            t1 = t[-1] + (rng.randint(0, 20) * DAY
                          if f[0] in 'MQY' and rng.random() < 0 else 0)
            res.append(dict(kind='grid', f=f, t0=t[0], t1=t1, p=p, q=q,
                            x0=rng.choice([0, 3, -5, 40])))
    for _ in range(ctx.pick(30, 200)):
        p, q = horizon(rng, 100, 400)
        if not years_ok(p, q, 100):
            continue
        a = rng.randint(-20, 50)
        res.append(dict(kind='numgrid', a=a, b=a + rng.randint(0, 60), p=p,
                        q=q, x0=rng.choice([0, a, 7])))
    # whole forecasts
    for _ in range(ctx.pick(220, 2000)):
        f = rng.choice(FREQS)
        p, q = horizon(rng, YEARS[f[0]], 400)
        if not horizon_ok(f, p, q, 400):
            continue
        t, pts = gen_dates(rng, f, rng.randint(3, 14))
        w = [1] * len(t)
        for i in range(len(t)):
            if rng.random() < .15:
                w[i] = 0
        if sparse(f, t):
            continue
        start = None
        if rng.random() < .4:
            k = rng.randint(0, len(t) - 2)
            start = t[k]
        if sum(wi for ti, wi in zip(t, w) if start is None or
               ti >= start) < 2:
            continue
        res.append(dict(kind='run', t=t, w=w, p=p, q=q, start=start,
                        order=rng.randint(0, 2), hide=_hide(rng, len(t)),
                        adj=bool(
                            set(zip(t, t[1:])) &
                            set(zip(pts, pts[1:])))))
    for _ in range(ctx.pick(60, 500)):
        p, q = horizon(rng, 100, 400)
        if not years_ok(p, q, 100):
            continue
        n = rng.randint(3, 14)
        x0 = rng.randint(-10, 60)
        xs = [x0]
        for _ in range(n - 1):
            xs.append(xs[-1] + rng.choice([1, 1, 1, 2, 4]))
        w = [0 if rng.random() < .15 else 1 for _ in xs]
        start = rng.choice([None, None, xs[rng.randint(0, n - 2)]])
        if sum(wi for xi, wi in zip(xs, w) if start is None or
               xi >= start) < 2:
            continue
        res.append(dict(kind='numrun', x=xs, w=w, p=p, q=q, start=start,
                        hide=_hide(rng, n)))
    return res


def _values(sc, n):
    """Values of the samples, some missing, also the last one: they are part
    of the series"""
    y = [(i * 7) % 5 for i in range(n)]
    hide = sc.get('hide', [])
    ok = [i for i in range(n) if sc['w'][i] and i not in hide and (
        sc['start'] is None or sc.get('t', sc.get('x'))[i] >= sc['start'])]
    if len(ok) >= 3:
        for i in hide:
            y[i] = None
    return y


def _years(sc):
    return sc['p'] / sc['q'] if sc['q'] != 1 else sc['p']


def drive(sc):
    k = sc['kind']
    if k == 'freq':
        s = pd.Series([ts(t) for t in sc['t']])
        r = detect_freq(s)
        r2 = detect_freq(pd.DatetimeIndex(s))
        r3 = detect_freq(pd.DataFrame(dict(date=s)))
        return [dict(ev='Freq', dates=sc['t'], res=v or '')
                for v in (r, r2, r3)]
    if k == 'grid':
        g = get_s_x_extrapolate(ts(sc['t0']), ts(sc['t1']), freq=sc['f'],
                                extrapolate_years=_years(sc),
                                x_start_actuals=sc['x0'])
        return [dict(ev='Grid', dated=True, f=sc['f'], t0=sc['t0'],
                     t1=sc['t1'], p=sc['p'], q=sc['q'], x0=sc['x0'],
                     g=[minutes(v) for v in g.index],
                     x=[num(v) for v in g.values])]
    if k == 'numgrid':
        g = get_s_x_extrapolate(sc['a'], sc['b'],
                                extrapolate_years=_years(sc),
                                x_start_actuals=sc['x0'])
        return [dict(ev='Grid', dated=False, t0=sc['a'], t1=sc['b'],
                     p=sc['p'], q=sc['q'], x0=sc['x0'],
                     g=[num(v) for v in g.index],
                     x=[num(v) for v in g.values])]
    dated = k == 'run'
    if dated:
        x = monday_x(sc['t'])
        rows = [dict(t=t, x=xx, w=w, y=v) for t, xx, w, v in zip(
            sc['t'], x, sc['w'], _values(sc, len(x)))]
        df = frame(rows, ('date', 'y', 'weight'))
        start = None if sc['start'] is None else ts(sc['start'])
        if sc['order'] == 1 and len(df) > 1:
            # rows of a table may come in any order; x is counted from the
            # first listed date
            df = pd.concat([df.iloc[:1], df.iloc[1:][::-1]])
        if sc['order'] == 2 and all(w == 1 for w in sc['w']):
            df = df.drop(columns='weight')
    else:
        rows = [dict(t=xx, x=xx, w=w, y=v) for xx, w, v in zip(
            sc['x'], sc['w'], _values(sc, len(sc['x'])))]
        df = frame(rows, ('x', 'y', 'weight'))
        start = sc['start']
    res = fc.run_forecast(df, l_model_trend=[probe_x()], l_model_season=[],
                          l_model_naive=[], extrapolate_years=_years(sc),
                          date_start_actuals=start, include_all_fits=True,
                          simplify_output=False)
    d = res['data']
    d = d.loc[~d.is_actuals]
    enc = minutes if dated else num
    return [dict(ev='Run', dated=dated, start=opt(sc['start'], int),
                 rows=[dict(t=r['t'], x=r['x'], w=r['w']) for r in rows],
                 p=sc['p'], q=sc['q'], g=[enc(v) for v in d.date],
                 v=[num(v) for v in d.y])]


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['ev'] == 'Freq':
        for e in tr:
            e['res'] = rng.choice(['D', 'W-MON', 'M', 'H', 'QS']) \
                if e['res'] == '' else ''
        return 'freq', tr
    if sc['kind'] == 'run' and not sc.get('adj'):
        return None     # may lie off the detected grid: not constrained
    how = rng.choice(['drop', 'extra', 'shift', 'x'])
    xs = 'x' if e['ev'] == 'Grid' else 'v'
    if how == 'drop' and len(e['g']) > 1:
        i = rng.randrange(len(e['g']))
        del e['g'][i], e[xs][i]
    elif how == 'extra':
        e['g'].append(e['g'][-1] + 1440)
        e[xs].append(e[xs][-1] + 1)
    elif how == 'shift':
        e['g'] = [v + 60 * 24 for v in e['g']]
    else:
        e[xs][-1] += 1
        return e['ev'] + ' x', tr
    return e['ev'] + ' ' + how, tr


def coverage(scs, traces):
    from collections import Counter
    return dict(kinds=dict(Counter(s['kind'] for s in scs)))
