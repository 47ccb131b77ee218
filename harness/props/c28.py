"""C28: lists of forecast inputs."""
import zlib

from anticipy import forecast as fc
from anticipy import forecast_models as fm

from lib import *  # noqa: F401,F403
from lib import np, pd

MC = [dict(module='MC_Inputs', thorough_cfg='MC_Inputs_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Inputs'
OWNS = None
ASSUMPTIONS = ['calls compared with each other start from the same random '
               'state; models with random initial values are not used']
SELF_TEST = 12
TABLES = ['forecast', 'data', 'metadata', 'optimize_info']
TRENDS = dict(linear=fm.model_linear, ramp=fm.model_ramp,
              nondec=fm.model_linear_nondec, step=fm.model_step,
              season=fm.model_linear + fm.model_season_wday)


def series(kind, seed, sc):
    """An input table of the kind"""
    rng = np.random.RandomState(seed)
    n = dict(short=2, empty=0, several=16).get(kind, int(rng.randint(8, 30)))
    y = np.round(np.cumsum(rng.randint(-3, 5, n)).astype(float) +
                 rng.randint(-9, 50), 1)
    if sc['outliers'] and n > 12:
        y[6] += 300
    f = '7D' if kind == 'weekly' else 'D'
    d = pd.DataFrame(dict(
        day=pd.date_range('2019-%02d-01' % rng.randint(1, 12), periods=n,
                          freq=f), val=y))
    if kind == 'undated':
        d = d.rename(columns=dict(day='pos'))
        d['pos'] = np.arange(n) + int(rng.randint(-4, 9))
    if kind == 'unused':
        d['wt'] = 0.
    elif rng.rand() < .5:
        d['wt'] = rng.choice([0., 1., 2.], n)
    if kind == 'several':
        d['src'] = ['p'] * 8 + ['q'] * 8
        d['day'] = list(d.day[:8]) * 2
    if rng.rand() < .3:
        d = d.iloc[::-1]
    if not sc['custom']:
        d = d.rename(columns=dict(day='date', val='y', wt='weight', pos='x',
                                  src='source'))
    return d


def start_of(i, df, sc):
    if i['kind'] != 'late' or not len(df):
        return None
    c = df['day' if sc['custom'] else 'date']
    return c.sort_values().iloc[i['seed'] % len(c)]


def scenarios(ctx):
    rng = ctx.rng
    res = []

    def options():
        return dict(custom=rng.random() < .3, outliers=rng.random() < .2,
                    p=rng.choice([0, 0, 20, 90]), all=rng.random() < .5,
                    mode=rng.choice(['add', 'add', 'mult', 'both', 'auto']),
                    cache=rng.random() < .8)
    for ins in ctx.sample(ctx.gen['MC_Inputs'], ctx.pick(170, 2500)):
        res.append(dict(kind='list', ins=[
            dict(kind=i['kind'], id=i['id'], seed=rng.randint(0, 9999),
                 trend=i['trend'], season=[]) for i in ins], **options()))
    while len(res) < ctx.pick(230, 3500):
        res.append(dict(kind='list', ins=[dict(
            kind=rng.choice(['daily', 'weekly', 'undated', 'short', 'empty',
                             'late', 'unused', 'several']),
            id=rng.choice(['a', 'B', 'src', 'x:1', 'Z z']),
            seed=rng.randint(0, 9999), season=rng.choice(
                [[], [['null']], [['wday', 'null']], [[]]]),
            trend=rng.choice([[], [['linear']], [['ramp', 'linear']],
                              [['step', 'nondec']], [['season']]]),
            how=rng.choice(['', '', 'create', 'alone']))
            for _ in range(rng.choice([1, 2, 3, 5]))], **options()))
    for _ in range(ctx.pick(40, 400)):
        res.append(dict(kind='table', n=rng.choice([1, 2, 3, 4]),
                        seed=rng.randint(0, 9999), **options()))
    for _ in range(ctx.pick(30, 300)):
        res.append(dict(kind='default', seed=rng.randint(0, 9999),
                        trend=rng.choice([['linear'], ['linear'], ['ramp'],
                                          ['step', 'linear']]),
                        long=rng.random() < .5, **options()))
    return res


def models(o):
    if not o:
        return None
    d = dict(TRENDS, null=fm.model_null, wday=fm.model_season_wday)
    return [d[n] for n in o[0]]


def kwargs(sc):
    k = dict(extrapolate_years=sc['p'] / 365., season_add_mult=sc['mode'],
             include_all_fits=sc['all'], find_outliers=sc['outliers'],
             use_cache=sc['cache'])
    if sc['custom']:
        k.update(col_name_y='val', col_name_date='day',
                 col_name_weight='wt', col_name_x='pos',
                 col_name_source='src')
    return k


def cell(v):
    if isinstance(v, float):
        return v.hex()
    if isinstance(v, (list, tuple, np.ndarray)):
        return '[%s]' % ','.join(cell(float(x)) if not isinstance(x, str)
                                 else x for x in v)
    if isinstance(v, fm.ForecastModel):
        return v.name
    return '' if v is None or v is pd.NaT else str(v)


def enc(res):
    if res is None:
        return []
    out = {}
    for t in TABLES:
        d = res[t]
        cols = sorted(c for c in d.columns if c != 'fit_time')
        # columns that one of the tables lacks count as missing values
        out[t] = [zlib.crc32('|'.join(
            '%s=%s' % (c, cell(float(v)) if isinstance(v, (int, np.integer))
                       and not isinstance(v, bool) else cell(v))
            for c, v in zip(cols, row) if not missing(v)).encode()) % 2 ** 30
            for row in d[cols].astype(object).values.tolist()]
    return [out]


def missing(v):
    try:
        return v is None or v is pd.NaT or bool(v != v)
    except (TypeError, ValueError):
        return False


def numbered(res):
    return res is None or all(
        list(res[t].index) == list(range(len(res[t]))) for t in TABLES)


def drive(sc):
    if sc['kind'] == 'table':
        return [table(sc)]
    if sc['kind'] == 'default':
        return [default(sc)]
    dfs = [series(i['kind'], i['seed'], sc) for i in sc['ins']]
    inputs = []
    for i, d in zip(sc['ins'], dfs):
        mk = fc.ForecastInput.create if i.get('how') == 'create' and \
            i['trend'] else fc.ForecastInput
        inputs.append(mk(i['id'], d, models(i['trend']),
                         models(i['season']),
                         date_start_actuals=start_of(i, d, sc)))
    arg = inputs
    if len(inputs) == 1 and sc['ins'][0].get('how') == 'alone':
        arg = inputs[0]
    np.random.seed(11)
    out = fc.run_l_forecast(arg, **kwargs(sc))
    np.random.seed(11)
    parts = []
    for i, d in zip(sc['ins'], dfs):
        parts.append(fc.run_forecast(
            d, models(i['trend']) or [fm.model_linear], models(i['season']),
            date_start_actuals=start_of(i, d, sc), source_id=i['id'],
            simplify_output=False, **kwargs(sc)))
    return [dict(ev='List', out=enc(out), parts=[enc(p) for p in parts],
                 numbered=numbered(out))]


def table(sc):
    rng = np.random.RandomState(sc['seed'])
    names = ['s%d' % i for i in range(sc['n'])]
    kinds = [str(rng.choice(['daily', 'weekly', 'short', 'unused']))
             for _ in names]
    dfs = [series(k, int(rng.randint(9999)), sc) for k in kinds]
    w = 'wt' if sc['custom'] else 'weight'
    dfs = [d if w in d else d.assign(**{w: 1.}) for d in dfs]
    c = 'src' if sc['custom'] else 'source'
    full = pd.concat([d.assign(**{c: n}) for n, d in zip(names, dfs)])
    kw = kwargs(sc)
    np.random.seed(4)
    a = fc.run_forecast(full, [fm.model_linear], [], simplify_output=False,
                        **kw)
    np.random.seed(4)
    b = fc.run_l_forecast([fc.ForecastInput(n, d, [fm.model_linear], [])
                           for n, d in zip(names, dfs)], **kw)
    return dict(ev='Table', a=enc(a), b=enc(b))


def default(sc):
    n = 800 if sc['long'] else 30
    rng = np.random.RandomState(sc['seed'])
    d = pd.DataFrame(dict(date=pd.date_range('2017-01-01', periods=n),
                          y=np.cumsum(rng.randint(-2, 4, n)) * 1.))
    sc = dict(sc, custom=False)
    t = [TRENDS[k] for k in sc['trend']]
    f = [None] if sc['trend'] == ['linear'] else [t]
    np.random.seed(2)
    a = fc.run_l_forecast([fc.ForecastInput('q', d, f[0], [])], **kwargs(sc))
    np.random.seed(2)
    b = fc.run_forecast(d, t, [], source_id='q', simplify_output=False,
                        **kwargs(sc))
    return dict(ev='Default', trend=sc['trend'], out=enc(a), alone=enc(b))


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['ev'] == 'List':
        how = rng.choice(['row', 'none', 'numbered', 'order'])
        if how == 'numbered':
            e['numbered'] = False
            return how, tr
        if not e['out']:
            return None
        if how == 'none':
            e['out'] = []
        else:
            t = e['out'][0][rng.choice(['data', 'optimize_info'])]
            if how == 'row':
                t[rng.randrange(len(t))] += 1
            elif len(set(t)) > 1:
                t.append(t.pop(0)) if len(set(t)) == len(t) else t.pop()
            else:
                return None
        return how, tr
    k = 'b' if e['ev'] == 'Table' else 'out'
    e[k][0]['data'].pop()
    return 'lost row', tr
