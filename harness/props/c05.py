"""C05: fits minimise the weighted squared residuals."""
import random

from anticipy import forecast as fc
from anticipy import forecast_models as fm

from lib import *  # noqa: F401,F403
from enc import NAN
from lib import DAY, fix, monday_x, np, pd, ts, walk
from props import fit_common as ft
from props import models_common as mc

MC = [dict(module='MC_Fit', thorough_cfg='MC_Fit_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Fit'
OWNS = ['fit:', 'bound:']
ASSUMPTIONS = ['the models are affine in their parameters, or (bounds only) '
               'any predefined model',
               'values have optima at integers, times a unit; at most 6 '
               'samples share an x',
               'results are compared at 1/1000 of the unit of the values']
SELF_TEST = 14


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for g in ctx.sample(ctx.gen['MC_Fit'], ctx.pick(250, 3000)):
        res.append(dict(kind='tlc', seed=rng.randint(0, 10 ** 9), m=g['m'],
                        R=g['R'], p=g['p'], unique=g['n'] == 1))
    while len(res) < ctx.pick(1800, 16000):
        res.append(dict(kind='fit', seed=rng.randint(0, 10 ** 9)))
    while len(res) < ctx.pick(2200, 19000):
        res.append(dict(kind='bound', seed=rng.randint(0, 10 ** 9)))
    # The finding of known_findings.json
    y = [0, 3, 5, 16, 32, 35, 35]
    res.append(dict(kind='large', seed=1, y=y, known='large-values'))
    return res


def units(rng, leaves=()):
    # (numerical derivatives by the effect of a dummy need moderate values)
    big = [1e5] if all(lf['n'] in ('constant', 'linear', 'season_wday')
                            for lf in leaves) else [1e3, 1e4]
    return (rng.choice([1., 1., 1., .01, 10., 1000., .5] + big),
            rng.choice([1., 1., 1., 2., .1, 10., .25]))


def grid(rng):
    """Usable and ignored samples of a series, without values"""
    n = rng.choice([4, 6, 8, 10, 15, 16, 21, 30, 45])
    d0 = rng.randint(15000, 19000)
    dated = rng.random() < .8
    tod = dated and rng.random() < .3
    gaps = rng.random() < .3
    x0 = (d0 + 3) % 7 if dated and rng.random() < .6 else 0
    wt = rng.choice([[1], [1], [1, 2], [1, 2, 3], [2], [1, 4]])
    rows = []
    for i in range(n):
        if gaps and rng.random() < .3:
            continue
        k = rng.choice([1, 1, 1, 2, 3, 6]) if rng.random() < .4 else 1
        for j in range(k):
            rows.append(dict(x=i + x0, d=d0 + i, t=(d0 + i) * DAY + (
                j * 240 if tod else 0), w=rng.choice(wt), y=0))
        # ignored ones
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            if rng.random() < .5:
                rows.append(dict(rows[-1], y=None, w=rng.choice(wt)))
            else:
                rows.append(dict(rows[-1], y=rng.choice([None, 999, -50]),
                                 w=rng.choice([0, None, -1])))
    weighted = any(r['w'] != 1 for r in rows)
    return n, d0, dated, tod, rows, weighted


def usable(r):
    return r['y'] is not None and (r['w'] or 0) > 0


def make_fit(rng):
    n, d0, dated, tod, rows, weighted = grid(rng)
    use = [r for r in rows if usable(r)]
    leaves = ft.rand_leaves(rng, d0, n, dated, tod)
    np_ = sum(ft.n_params(lf) for lf in leaves)
    if len(use) < np_ + 2:
        return None
    if any(lf['n'] == 'season_wday' for lf in leaves) and len(
            {r['d'] % 7 for r in use}) < 7:
        return None
    nondec = [sum(ft.n_params(q) for q in leaves[:i])
              for i, lf in enumerate(leaves) if lf['nm'] == 'linear_nondec']
    own = not nondec and rng.random() < .25
    active = nondec if nondec and rng.random() < .6 else \
        rng.sample(range(np_), rng.randint(0, min(np_, 2))) if own else []
    unique = ft.full_rank(leaves, use)
    # (slow convergence at bounds, and of effects that no sample shows)
    if not unique and (own or nondec or any(
            lf['n'] in ('dummy', 'dummies') for lf in leaves)):
        return None
    r, g = ft.residuals(leaves, use, rng, active)
    if not any(r) and rng.random() < .9:
        return None
    p = [rng.randint(-20, 20) for _ in range(np_)]
    lo, hi = [[] for _ in p], [[] for _ in p]
    for j in nondec:
        lo[j] = [0]
        p[j] = abs(p[j]) + 1
        if j in active:
            p[j] = 0
            if g[j] > 0:
                r = [-q for q in r]
                g = [-q for q in g]
    if own:
        for j in range(np_):
            if j in active and g[j]:
                (hi if g[j] > 0 else lo)[j] = [p[j]]
                if rng.random() < .5:
                    (lo if g[j] > 0 else hi)[j] = [
                        p[j] + (-7 if g[j] > 0 else 7)]
            else:
                if rng.random() < .5:
                    lo[j] = [p[j] - rng.choice([2, 9])]
                if rng.random() < .5:
                    hi[j] = [p[j] + rng.choice([2, 9])]
        k = 0
        for lf in leaves:
            m = ft.n_params(lf)
            lf['own'] = [lo[k:k + m], hi[k:k + m]]
            k += m
    for s, q in zip(use, r):
        s['y'] = sum(a * b for a, b in zip(p, ft.phi(leaves, s))) + q
    return dict(leaves=leaves, rows=rows, p=p, lo=lo, hi=hi, dated=dated,
                tod=tod, weighted=weighted,
                unique=unique)


def drive(sc):
    rng = random.Random(sc['seed'])
    if sc['kind'] == 'bound':
        return [bound_event(rng)]
    if sc['kind'] == 'large':
        rows = [dict(x=i, t=i * DAY, d=i, y=v, w=1)
                for i, v in enumerate(sc['y'])]
        df = ft.frame(rows, 1e10, 1., False, False)
        np.random.seed(1)
        row = fc.fit_model(fm.model_linear, df)['metadata'].iloc[0]
        lf = [mc.L('linear')]
        r, s = [q['y'] for q in rows], [ft.phi(lf, q) for q in rows]
        p = [int(round(v)) for v in np.linalg.lstsq(
            np.array(s, float), np.array(r, float), rcond=None)[0]]
        return [event(ft.term(lf), rows, p, [[], []], [[], []], True,
                      row.status, row.params,
                      fm.model_linear(np.array([q['x'] for q in rows]), None,
                                      row.params), row.cost, 1e10, 1.)]
    if sc['kind'] == 'tlc':
        return [tlc_event(sc, rng)]
    for _ in range(200):
        c = make_fit(rng)
        if c:
            return [fit_event(c, rng)]


def fit_event(c, rng):
    u, wu = units(rng, c['leaves'])
    bounded = any(c['lo']) or any(c['hi'])
    if bounded:            # tolerances of the solver at bounds are absolute
        u = max(u, 1.)
    if not c['weighted']:
        wu = 1.
    m = ft.model(c['leaves'], u)
    weighted = c['weighted'] or rng.random() < .3
    rows = list(c['rows'])
    use = [r for r in rows if usable(r)]
    xs = {r['x'] for r in rows}
    api = c['dated'] and not c['tod'] and rng.random() < .35 and (
        len(xs) == len(rows) or len(xs) == max(xs) - min(xs) + 1)
    order = list(range(len(rows)))
    if rng.random() < .3:
        rng.shuffle(order)
    sh = [rows[i] for i in order]
    np.random.seed(rng.randint(0, 10 ** 6))
    if api:
        # the x axis of the API
        t0 = min(r['t'] for r in rows)
        if any(lf['n'] == 'dummy' and lf['v']['kind'] == 'x' or
               lf['n'] == 'linear' for lf in c['leaves']):
            # ... starts at the Monday before the first row
            sh = rows
            api = monday_x([t0])[0] == min(r['x'] for r in rows)
    if api:
        df = ft.frame(sh, u, wu, True, weighted, False)
        r = fc.run_forecast(df, l_model_trend=[m], l_model_season=[],
                            l_model_naive=[], extrapolate_years=0,
                            include_all_fits=True, simplify_output=False)
        md, da = r['metadata'], r['data']
        da = da.loc[~da.is_actuals]
        at = dict(zip(da.date, da.y))
        pred = [at.get(ts(q['t']), np.nan) for q in use]
        row = md.iloc[0]
        status, params, cost = row.status, row.params, row.cost
    else:
        df = ft.frame(sh, u, wu, c['dated'], weighted)
        if rng.random() < .3:
            df.index = [7 * i % 11 for i in range(len(df))]
        r = fc.fit_model(m, df, freq='D', use_cache=rng.random() < .7)
        row = r['metadata'].iloc[0]
        status, params, cost = row.status, row.params, row.cost
        d = pd.DatetimeIndex([ts(q['t']) for q in use]) if c['dated'] \
            else None
        pred = [] if status != 'FIT' else m(
            np.array([float(q['x']) for q in use]), d, params)
    return event(ft.term(c['leaves']), rows, c['p'], c['lo'], c['hi'],
                 c['unique'], status, params, pred, cost, u, wu,
                 100 if bounded else 10)


def event(t, rows, p, lo, hi, unique, status, params, pred, cost, u, wu,
          tol=10):
    lim = max([abs(v) for v in p] + [abs(r['y'] or 0) for r in rows
                                     if usable(r)] + [1])
    return dict(
        ev='Fit', m=t, rows=[dict(
            x=r['x'], t=r['t'], d=r['d'], y=opt1(r['y']), w=opt1(r['w']))
            for r in rows], p=p, lo=lo, hi=hi, unique=unique, status=status,
        params=[fix(v / u, 1000) for v in np.atleast_1d(params)],
        pred=[fix(v / u, 1000) for v in pred], tol=tol + lim // 5,
        cost72=fix(cost / (u * wu) ** 2, 72))


def opt1(v):
    return [] if v is None else [v]


def tlc_event(sc, rng):
    """Series enumerated by TLC"""
    rows = [dict(r, y=r['y'][0] if r['y'] else None, w=r['w'][0])
            for r in sc['R']]
    u, wu = units(rng)
    t = sc['m']
    lf = []

    def flat(q):
        if q['k'] == 'leaf':
            lf.append(dict(q))
        else:
            for a in q['c']:
                flat(a)
    flat(t)
    fixed = t['v'] if t['k'] == 'fix' else None
    m = ft.model([dict(q, bounds=None) for q in lf])
    p = sc['p']
    if fixed:
        lf[0]['own'] = [fixed, fixed]
        lf[0]['own'] = [[list(v) for v in fixed], [list(v) for v in fixed]]
        m = ft.model(lf, u)
    df = ft.frame(rows, u, wu, True, True)
    np.random.seed(rng.randint(0, 10 ** 6))
    r = fc.fit_model(m, df, freq='D')
    row = r['metadata'].iloc[0]
    use = [q for q in rows if usable(q)]
    pred = []
    if row.status == 'FIT':
        pred = row.model_obj(
            np.array([float(q['x']) for q in use]),
            pd.DatetimeIndex([ts(q['t']) for q in use]), row.params)
    e = event(t, rows, p, [[] for _ in p], [[] for _ in p], sc['unique'],
              row.status, row.params, pred, row.cost, u, wu)
    # too few samples: nothing is claimed here (C07)
    if len(use) < sum(ft.n_params(q) for q in lf) + 2 and \
            e['status'] != 'FIT':
        e = dict(ev='Bound', status='', params=[], lo=[], hi=[], mlo=[],
                 mhi=[])
    return e


def bound_event(rng):
    """Any predefined model with bounds, on any series"""
    n = rng.choice([8, 12, 20, 40])
    name = rng.choice(['linear_nondec', 'decay', 'sigmoid_step', 'ramp',
                       'ramp', 'linear+ramp', 'nondec+wday', 'sigmoid*lin'])
    x0 = rng.choice([0, 0, 3, -10])
    x = [x0 + i * rng.choice([1, 1, 1, 2]) for i in range(n)]
    x = sorted(set(x))
    kind = rng.choice(['walk', 'noise', 'trend', 'step', 'kink', 'decay',
                       'const'])
    a = rng.choice([-5, -1, 1, 3])
    if kind == 'walk':
        y = walk(rng, len(x), start=60)
    elif kind == 'noise':
        y = [rng.randint(20, 60) for _ in x]
    elif kind == 'trend':
        y = [100 + a * (q - x0) + rng.randint(-3, 3) for q in x]
    elif kind == 'step':
        k = rng.randrange(len(x))
        y = [50 + (a * 9 if i >= k else 0) + rng.randint(0, 1)
             for i in range(len(x))]
    elif kind == 'kink':
        k = rng.choice([1, 2, len(x) // 2, len(x) - 2])
        y = [200 + a * max(0, i - k) + rng.randint(0, 1)
             for i in range(len(x))]
    elif kind == 'decay':
        y = [100. * 2 ** (-i / 4.) * (1 if a > 0 else -1) + 120
             for i in range(len(x))]
    else:
        y = [40] * len(x)
    if name == 'decay' or rng.random() < .3:
        y = [abs(v) + 1 for v in y]
    m = dict([('linear_nondec', fm.model_linear_nondec),
              ('decay', fm.model_decay),
              ('sigmoid_step', fm.model_sigmoid_step),
              ('ramp', fm.model_ramp),
              ('linear+ramp', fm.model_linear + fm.model_ramp),
              ('nondec+wday', fm.model_linear_nondec + fm.model_season_wday),
              ('sigmoid*lin', fm.model_sigmoid_step * fm.model_linear)])[name]
    d0 = 18000
    df = pd.DataFrame(dict(date=[ts((d0 + q) * DAY) for q in x], x=x, y=y,
                           weight=[1.] * len(x)))
    if rng.random() < .3:
        df = pd.concat([df, df.iloc[:3].assign(y=lambda q: q.y + 2)]
                       ).sort_values('x')
    np.random.seed(rng.randint(0, 10 ** 6))
    row = fc.fit_model(m, df, freq='D')['metadata'].iloc[0]
    ax, ay = df.x.values.astype(float), df.y.values.astype(float)
    lo, hi = m.f_bounds(ax, ay)
    k = m.n_params
    mlo, mhi = [[] for _ in range(k)], [[] for _ in range(k)]
    if name in ('linear_nondec', 'nondec+wday'):
        mlo[0] = [0]
    if name == 'decay':
        mhi[1] = [0]
    if name == 'sigmoid_step' or name == 'sigmoid*lin':
        mlo[2] = [0]
        mlo[1], mhi[1] = [10 ** 6 * min(x)], [10 ** 6 * max(x)]

    return dict(ev='Bound', status=row.status,
                params=[mono(v) for v in row.params], name=name,
                lo=[[mono(v)] for v in lo], hi=[[mono(v)] for v in hi],
                mlo=mlo, mhi=mhi)


def mono(v):
    """Rounds down, in 1/10^6; keeps the order of all values"""
    v = float(v)
    if np.isnan(v):
        return NAN
    return int(max(-1999999999, min(1999999999, np.floor(v * 1e6)))
               if np.isfinite(v) else np.sign(v) * 1999999999)


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['status'] != 'FIT':
        return None
    if e['ev'] == 'Bound':
        js = [j for j in range(len(e['lo'])) if e['lo'][j]]
        if not js:
            return None
        e['params'][js[0]] = e['lo'][js[0]][0] - 1
        return 'bound', tr
    how = rng.choice(['param', 'pred', 'cost', 'status', 'count'])
    if how == 'param':
        if not e['unique'] or not e['params']:
            return None
        e['params'][rng.randrange(len(e['params']))] += 2 * e['tol'] + 1
    elif how == 'pred':
        e['pred'][rng.randrange(len(e['pred']))] -= 2 * e['tol'] + 1
    elif how == 'cost':
        e['cost72'] += 3 + e['cost72'] // 2000
    elif how == 'status':
        e['status'] = 'NO_FIT'
    else:
        e['pred'].pop()
    return how, tr
