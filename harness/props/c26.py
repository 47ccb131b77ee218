"""C26: every predefined model can start its fit (spec/Start.tla)."""
import random

from anticipy import forecast as fc
from anticipy import forecast_models as fm

from lib import *  # noqa: F401,F403
from enc import NAN
from lib import DAY, np, pd, ts, walk
from props import models_common as mc
from props.pipe_common import T, compose, leaves, library, nparams

MC = [dict(module='MC_Start', thorough_cfg='MC_Start_thorough.cfg',
           coverage=False),
      dict(module='MC_Start', cfg='MC_Start_pairs.cfg',
           thorough_cfg='MC_Start_pairs_thorough.cfg', coverage=False,
           may_be_idle=['Ready'])]
CONF = 'Conf_Start'
OWNS = ['start:']
ASSUMPTIONS = ['usable samples ordered by x, at least two more distinct x '
               'than parameters',
               'the solver is only required to start where the value of the '
               'model is finite: powers of negative x and exponentials of '
               'them are not']
SELF_TEST = 14
INF = 1999999999


def every(rng):
    """All predefined models and factories"""
    d = rng.randint(17000, 18000) * DAY
    res = library(rng) + [T('constant'), T('linear'), T('two_steps'),
                          T('spike'), T('sigmoid', 'sigmoid_step'),
                          T('season_month', 'season_month_old'),
                          T('dummies', 'dl', [
                              dict(kind='t', l=[d + k * DAY for k in w])
                              for w in ([1, 2], [3, 9], [4])])]
    return res


def fix(t, v, nm):
    return dict(k='fix', n='', nm=nm, c=[t], v=v)


def np_of(t):
    if t['k'] == 'fix':
        return sum(1 for v in t['v'] if not v)
    if t['k'] != 'leaf':
        return sum(np_of(c) for c in t['c'])
    n = dict(two_steps=4, spike=3, constant=1, null=0, dummies=len(t['v']))
    return n[t['n']] if t['n'] in n else nparams(t)


def real(t):
    if t['k'] == 'fix':
        return fm.fix_params_fmodel(
            real(t['c'][0]), [float(v[0]) if v else np.nan for v in t['v']])
    if t['k'] == 'leaf':
        return mc.real_leaf(t)
    a, b = (real(c) for c in t['c'])
    return a + b if t['k'] == 'add' else a * b


def rand_fix(rng, t):
    n = np_of(t)
    v = [[rng.randint(0, 3)] if rng.random() < .4 else [] for _ in range(n)]
    if all(v):
        v[rng.randrange(n)] = []
    return fix(t, v, t['nm'] + '_f')


def rand_term(rng):
    ms = every(rng)
    t = rng.choice(ms)
    if rng.random() < .12 and np_of(t) > 1:
        t = rand_fix(rng, t)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        b = rng.choice(ms)
        if rng.random() < .5:
            t, b = b, t
        if t['k'] == 'fix' and b['k'] == 'fix':
            break
        t = compose(rng.choice(['add', 'mult']), t, b)
    if t['k'] in ('add', 'mult') and rng.random() < .12 and np_of(t) > 1:
        t = rand_fix(rng, t)
    return t


def rand_rows(rng, n, dated):
    """Usable rows, ordered by x"""
    d0 = rng.randint(17000, 18000)
    step = rng.choice([1, 1, 1, 7, 30, 2])
    x0 = rng.choice([0, 0, 0, 3, -4, -30])
    x = [x0]
    while len(x) < n:
        x.append(x[-1] + step * rng.choice([1, 1, 1, 1, 2]))
    a = rng.choice([-5, -1, 1, 3])
    kind = rng.choice(['walk', 'const', 'zero', 'neg', 'noise', 'step',
                       'trend', 'spike', 'decay', 'kink', 'ends', 'pos'])
    y = dict(
        walk=lambda: walk(rng, n, -3, 3, 60), const=lambda: [7 * a] * n,
        zero=lambda: [0] * n, neg=lambda: [-i - 5 for i in range(n)],
        noise=lambda: [rng.randint(1, 99) for _ in x],
        step=lambda: [50 if i > n // 2 else 3 for i in range(n)],
        trend=lambda: [100 + a * (q - x0) for q in x],
        spike=lambda: [90 if i == n // 3 else 4 for i in range(n)],
        decay=lambda: [int(99 * 2 ** (-i / 4.)) + 1 for i in range(n)],
        kink=lambda: [40 + a * max(0, i - n // 2) for i in range(n)],
        ends=lambda: [0] + [rng.randint(-9, 9) for _ in x[2:]] + [0],
        pos=lambda: [abs(v) + 1 for v in walk(rng, n, -3, 3, 20)])[kind]()
    rows = [dict(x=q, t=(d0 + q - x0) * DAY, d=d0 + q - x0, y=v)
            for q, v in zip(x, y)]
    if rng.random() < .2:
        for r in rng.sample(rows, min(3, len(rows))):
            rows.append(dict(r, y=r['y'] + rng.choice([0, 1, 5])))
        rows.sort(key=lambda r: r['x'])
    return rows


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for g in ctx.sample(ctx.gen['MC_Start'], ctx.pick(200, 3000)):
        res.append(dict(kind='tlc', m=g['m'], role=g['r'], rows=g['U'],
                        dated=True, u=rng.choice([1, 1, 1000]), mode='series',
                        seed=rng.randint(0, 10 ** 6)))
    while len(res) < ctx.pick(1500, 14000):
        t = rand_term(rng)
        dated = rng.random() < .8
        n = np_of(t) + 2 + rng.choice([0, 0, 1, 3, 10, 40])
        res.append(dict(
            kind='random', m=t, role=rng.randint(0, 1), dated=dated,
            rows=rand_rows(rng, n, dated),
            u=rng.choice([1, 1, 1, .01, 100, 1e4]),
            mode=rng.choice(['series'] * 8 + ['none', 'x']),
            fit=rng.random() < .7, seed=rng.randint(0, 10 ** 6)))
    return res


def drive(sc):
    np.random.seed(sc['seed'])
    m = real(sc['m'])
    ev = [init_event(sc, m)]
    if sc['mode'] == 'series' and sc.get('fit', True):
        ev.append(fit_event(sc, m))
    return ev


def init_event(sc, m):
    rows, u = sc['rows'], float(sc['u'])
    ax = np.array([r['x'] for r in rows], float)
    ay = np.array([r['y'] * u for r in rows], float)
    ad = pd.DatetimeIndex([ts(r['t']) for r in rows]) if sc['dated'] else None
    mode, ok = sc['mode'], True
    role = bool(sc['role'])
    if mode == 'none':
        ax = ay = ad = None
        p = m.f_init_params(is_mult=role) if sc['seed'] % 2 else \
            m.f_init_params(None, None, None, role)
    elif mode == 'x':
        ax, ay = np.unique(ax), None
        ad = None
        # (the bounds of a ramp need some positions)
        if len(ax) < 4:
            ax = np.arange(4.)
        p = m.f_init_params(ax, None, None, role)
    else:
        try:
            ok = bool(m.validate_input(ax, ay, ad))
        except AssertionError:
            ok = False
        p = m.f_init_params(ax, ay, ad, role) if ok else []
    lo, hi = m.f_bounds(ax, ay, ad) if ok else ([], [])
    p = np.atleast_1d(np.asarray(p, float))
    return dict(ev='Init', m=sc['m'], role=sc['role'], mode=mode, ok=ok,
                dated=sc['dated'], rows=enc(sc, rows),
                p=[low(v) for v in p],
                fin=[bool(np.isfinite(v)) for v in p],
                lo=[low(v) for v in lo], hi=[low(v) for v in hi],
                loy=[low(v / u) for v in lo], hiy=[low(v / u) for v in hi])


def low(v):
    """Rounds down, in 1/10^5; keeps the order of all values"""
    v = float(v)
    if np.isnan(v):
        return NAN
    # (just below an integer because of the unit)
    r = round(v) if np.isfinite(v) else 0
    if np.isfinite(v) and v != r and abs(v - r) < 1e-9 * max(1, abs(v)):
        return low_int(r)
    return int(max(-INF, min(INF, np.floor(v * 1e5)))) \
        if np.isfinite(v) else int(np.sign(v)) * INF


def low_int(r):
    return max(-INF, min(INF, int(r) * 10 ** 5))


def enc(sc, rows):
    return [dict(x=r['x'], t=r['t'], d=r['d'],
                 y=[] if r['y'] is None else [r['y']],
                 w=[] if r.get('w', 1) is None else [r.get('w', 1)])
            for r in rows]


def fit_event(sc, m):
    rng = random.Random(sc['seed'])
    rows = []
    for r in sc['rows']:
        rows.append(dict(r, w=rng.choice([1, 1, 1, 2])
                         if sc['seed'] % 3 == 0 else 1))
        if sc['seed'] % 4 == 0 and rng.random() < .3:
            rows.append(dict(r, y=None, w=1) if rng.random() < .5 else
                        dict(r, y=9999, w=rng.choice([0, None])))
    df = pd.DataFrame(dict(
        x=[r['x'] for r in rows],
        y=[np.nan if r['y'] is None else r['y'] * float(sc['u'])
           for r in rows],
        weight=np.array([np.nan if r['w'] is None else r['w'] for r in rows],
                        float)))
    if sc['dated']:
        df['date'] = [ts(r['t']) for r in rows]
    if rng.random() < .3:
        df['source'] = 'S'
    r = fc.fit_model(m, df, freq='D', source='S')
    row, oi = r['metadata'].iloc[0], r['optimize_info'].iloc[0]
    it = oi.get('iterations', 0)
    p = np.atleast_1d(np.asarray(row.params, float))
    return dict(ev='Fit', m=sc['m'], dated=sc['dated'], rows=enc(sc, rows),
                status=row.status, ran=bool(it == it and it and it >= 1),
                p=[low(v) for v in p], fin=bool(np.isfinite(p).all()))


def corrupt(tr, rng, sc):
    e = tr[0]
    if not e['ok'] or not e['p'] or not e['lo']:
        return None
    j = rng.randrange(len(e['p']))
    how = rng.choice(['count', 'bound', 'finite', 'lo', 'status', 'sign'])
    if how == 'count':
        e['p'].pop()
    elif how == 'bound':
        js = [j for j in range(len(e['lo'])) if e['lo'][j] > -INF]
        if not js:
            return None
        e['p'][js[0]] = e['lo'][js[0]] - 1
    elif how == 'finite':
        e['fin'][j] = False
    elif how == 'lo':
        if e['mode'] == 'x':
            return None
        e['lo'][j] = e['loy'][j] = -77
    elif len(tr) < 2:
        return None
    elif how == 'status':
        if tr[1]['status'] != 'FIT':
            return None
        tr[1]['status'] = 'INPUT_ERR'
    else:
        f = tr[1]
        if sc['m']['k'] != 'leaf' or sc['m']['nm'] != 'linear_nondec' or \
                f['status'] != 'FIT':
            return None
        f['p'][0] = -1
    return how, tr
