"""C13: naive and seasonal naive forecasts."""
from anticipy import forecast as fc
from anticipy import forecast_models as fm

from lib import *

MC = [dict(module='MC_Naive', thorough_cfg='MC_Naive_thorough.cfg')]
CONF = 'Conf_Naive'
ASSUMPTIONS = [
    'at most one usable sample per date (the models are documented not to '
    'support several), gaps only in series with one sample per date',
    'samples lie on the grid of their frequency; two or more usable samples',
    'the weekday-seasonal model is evaluated on actual dates and dates after '
    'them (gaps are filled before it is called)']
SELF_TEST = 15


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for s in ctx.sample(ctx.gen.get('MC_Naive', []), ctx.pick(200, 3000)):
        step = rng.choice([DAY, 7 * DAY, 60, 3 * DAY])
        t0 = s['rows'][0]['t']
        rows = [dict(t=t0 + i * step, y=r['y'][0] if r['y'] else None,
                     w=r['w']) for i, r in enumerate(s['rows'])]
        res.append(dict(kind=rng.choice(['run', 'eval']), dated=True,
                        rows=rows, start=None, step=step))
    for _ in range(ctx.pick(300, 3000)):
        kind = rng.choice(['run', 'run', 'eval', 'num'])
        n = rng.randint(4, 40)
        step = rng.choice([DAY, DAY, DAY, 7 * DAY, 60])
        t0 = rng.randint(15000, 21000) * DAY + rng.choice([0, 0, 540])
        if kind == 'num':
            t0, step = rng.randint(-10, 40), 1
        pu, pg = rng.choice([0, .2, .5]), rng.choice([0, .2, .5])
        rows = []
        for i in range(n):
            if i not in (0, 1, n - 1) and rng.random() < pg:
                continue
            rows.append(dict(
                t=t0 + i * step,
                y=None if rng.random() < pu / 2 else rng.randint(-99, 99),
                w=0 if rng.random() < pu / 2 else rng.choice([1, 1, 2])))
        if pg == 0 or kind == 'eval':  # ignored samples of the same date
            for r in rng.sample(rows, rng.choice([0, 0, 1, 2, 3])):
                e = dict(t=r['t'], y=rng.choice([None, rng.randint(-99, 99)]),
                         w=0)
                if e['y'] is None:
                    e['w'] = rng.choice([0, 1, 2])
                rows.insert(rows.index(r) + rng.choice([0, 0, 1]), e)
        start = rng.choice([None, None, t0 + rng.randint(0, n // 2) * step])
        res.append(dict(kind=kind, dated=kind != 'num', rows=rows,
                        start=start, step=step))
    out = []
    for s in res:
        u = [r for r in s['rows'] if r['y'] is not None and r['w'] > 0 and
             (s['start'] is None or r['t'] >= s['start'])]
        if len(u) >= 2:
            out.append(s)
        for r in s['rows']:
            r['x'] = 0
    return out


def drive(sc):
    rows = sc['rows']
    dated = sc['dated']
    xs = monday_x([r['t'] for r in rows]) if dated else [r['t'] for r in rows]
    for r, x in zip(rows, xs):
        r['x'] = x
    erows = [dict(t=r['t'], x=r['x'], w=r['w'],
                  y=[] if r['y'] is None else [r['y']]) for r in rows]
    models = [fm.model_naive] + ([fm.model_snaive_wday] if dated else [])
    enc = minutes if dated else num
    evs = []
    if sc['kind'] == 'eval':
        df = frame(rows, ('date', 'x', 'y', 'weight'))
        df['y'] = df.y.where(df.weight > 0)
        rng = np.random.RandomState(len(rows) + rows[0]['t'] % 1000)
        for m in models:
            t = sorted({r['t'] for r in rows if rng.rand() < .7})
            t += [rows[-1]['t'] + sc['step'] * (i + 1) for i in range(15)]
            base = rows[0]['t']
            x = [rows[0]['x'] + (v - base) // DAY for v in t]
            i_date = pd.DatetimeIndex([ts(v) for v in t])
            before = df.copy()
            y = m(np.array(x), i_date, [], df_actuals=df)
            assert df.equals(before)
            evs.append(dict(ev='Eval', model='naive' if m is models[0] else
                            'snaive', rows=erows, grid=t,
                            out=[opt(v) for v in y]))
        return evs
    df = frame(rows, ('date', 'y', 'weight') if dated else
               ('x', 'y', 'weight'))
    units = {60: 8760, DAY: 365, 7 * DAY: 52, 1: 100}.get(sc['step'], 365)
    start = None if sc['start'] is None else (
        ts(sc['start']) if dated else sc['start'])
    res = fc.run_forecast(
        df, l_model_trend=[probe_x()], l_model_season=[],
        l_model_naive=models, extrapolate_years=16.5 / units,
        date_start_actuals=start, include_all_fits=True,
        simplify_output=False)
    d, md = res['data'], res['metadata']
    d = d.loc[~d.is_actuals]
    grid = [enc(v) for v in d.loc[d.model == 'probe_x'].date]
    for m in models:
        dm = d.loc[d.model == m.name]
        cost = md.loc[md.model == m.name].cost.iloc[0]
        evs.append(dict(
            ev='Run', model='naive' if m.name == 'naive' else 'snaive',
            rows=erows, start=opt(sc['start'], int), grid=grid,
            out=[dict(t=enc(r.date), y=num(r.y)) for r in dm.itertuples()],
            cost2=num(cost, 2)))
    return evs


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    if not e['out']:
        return None
    i = rng.randrange(len(e['out']))
    if e['ev'] == 'Eval':
        e['out'][i] = [] if e['out'][i] else [4]
        return 'eval', tr
    how = rng.choice(['value', 'drop', 'double', 'cost'])
    if how == 'value':
        e['out'][i]['y'] += 1
    elif how == 'drop':
        del e['out'][i]
    elif how == 'double':
        e['out'].append(dict(e['out'][i]))
    elif sc['step'] != 60:
        e['cost2'] += 1
    else:
        return None
    return how, tr
