"""C21: results do not depend on earlier calls."""
import json
import os
import sys
import zlib

from anticipy import forecast as fc
from anticipy import forecast_models as fm
from anticipy import model_utils as mu
from anticipy.forecast_models import ForecastModel

from lib import *  # noqa: F401,F403
from lib import np, pd

MC = [dict(module='MC_History', thorough_cfg='MC_History_thorough.cfg',
           coverage=False)]
CONF = 'Conf_History'
OWNS = None
ASSUMPTIONS = ['a fresh process is a forked copy of one that has imported '
               'the library and called nothing',
               'every call is made with the same random seed']
SELF_TEST = 6

# ------------------------------------------------------------------- pool


def make_pool():
    """Objects that the calls of a session share"""
    rng = np.random.RandomState(5)
    P = {}
    d = pd.date_range('2017-01-01', periods=70, freq='D')
    y = np.round(10 + .5 * np.arange(70) + rng.randint(-3, 4, 70) +
                 3 * (d.weekday > 4), 1)
    w = np.ones(70)
    w[[3, 8]] = 0
    P['t1'] = pd.DataFrame(dict(date=d, y=y, weight=w))
    # same dates and size, other values; and other dates in between
    P['t1v'] = pd.DataFrame(dict(date=d, y=y[::-1] * 2, weight=1.))
    # same size, first and last date
    P['t1d'] = P['t1'].drop([5, 6, 20]).reset_index(drop=True)
    P['t1e'] = P['t1'].drop([30, 31, 50]).reset_index(drop=True)
    P['t1s'] = P['t1'].sample(frac=1, random_state=3)
    two = []
    for s, v in (('b', 5), ('a', 100)):
        dd = pd.date_range('2016-03-07', periods=30, freq='7D')
        two.append(pd.DataFrame(dict(
            date=dd, y=v + rng.randint(0, 9, 30).astype(float), source=s,
            other='z')))
    P['t2'] = pd.concat(two).iloc[::-1]
    yy = rng.randint(0, 9, 25).astype(float)
    yy[[4, 5]] = np.nan
    P['t3'] = pd.DataFrame(dict(y=yy))
    P['t4'] = pd.DataFrame(dict(
        date=pd.date_range('2015-01-01', periods=20, freq='MS'),
        y=rng.randint(5, 9, 20).astype(float)))
    ys = y.copy()
    ys[30] += 200
    P['t5'] = pd.DataFrame(dict(date=d, y=ys))
    P['s6'] = pd.Series(yy, index=pd.date_range('2019-05-01', periods=25))
    P['t7'] = pd.DataFrame(dict(x=np.arange(12) - 3.,
                                y=[1., 2, 3, 4, 5, 6, 17, 18, 19, 20, 21,
                                   22]))
    P['gap'] = P['t1'].drop([5, 6, 20]).reset_index(drop=True)
    P['bad'] = pd.DataFrame(dict(y=['u', 'v'], date=['x', 'y']))
    P['custom'] = P['t1'].rename(columns=dict(y='val', date='day',
                                              weight='wt'))
    P['fcst'] = pd.DataFrame(dict(
        date=list(d[:40]) + list(d), source='s',
        is_actuals=[True] * 40 + [False] * 70,
        model=['actuals'] * 40 + ['m'] * 70,
        y=list(y[:40]) + list(np.round(y + rng.randint(-2, 3, 70), 1)),
        is_best_fit=[False] * 40 + [True] * 70, weight=1.))
    # tables as normalize_df makes them, and results of a forecast
    P['n1'] = P['t5'].assign(x=np.arange(70) + 6)[['date', 'x', 'y']]
    P['n2'] = P['t1'].assign(x=np.arange(70) + 6)[['date', 'x', 'y',
                                                   'weight']]
    P['n2'].loc[12, 'y'] = np.nan
    P['n3'] = pd.concat([P['n1'], P['n1'].iloc[20:30]]).sort_values(
        'x').reset_index(drop=True)
    P['meta'] = [dict(forecast=P['fcst'].copy(), data=P['fcst'].copy(),
                      metadata=P['n1'].copy(), optimize_info=P['n2'].copy())
                 for _ in range(2)]
    # models and lists of models
    P['m_sum'] = fm.model_linear + fm.model_season_wday
    P['m_prod'] = fm.model_linear * fm.model_season_wday
    P['m_deep'] = (fm.model_linear + fm.model_calendar_uk) * \
        fm.model_season_wday + fm.model_step
    P['m_bound'] = ForecastModel(
        'bound', 2, lambda a_x, a_date, params, is_mult=False, **k:
        params[0] * np.asarray(a_x) + params[1],
        lambda a_x=None, a_y=None, a_date=None, is_mult=False:
        np.array([.5, 1.]),
        lambda a_x=None, a_y=None, a_date=None: ([.5, -9], [.5, 99]))
    P['m_dummy'] = fm.get_model_dummy('dd', ['2017-01-05', '2017-02-01'])
    P['trend'] = [fm.model_linear, fm.model_linear_nondec]
    P['season'] = [fm.model_season_wday, fm.model_null]
    P['naive'] = [fm.model_naive, fm.model_snaive_wday]
    P['cal'] = [fm.model_calendar_uk]
    P['dates'] = ['2017-01-03', '2017-01-20']
    P['params'] = np.array([2., 1., .1, .2, .3, .4, .5, .6])
    P['fixed'] = [1.5, np.nan, .1, np.nan, np.nan, np.nan, .4, np.nan]
    P['bounds_x'] = np.arange(70.)
    # arguments given as arrays, series and indexes: easy to share by mistake
    P['fixed_a'] = np.array(P['fixed'])
    P['start_a'] = np.array([3., 1., .1, .2, .3, .4, .5, .6])
    P['low_a'] = np.array([-50., -40.])
    P['high_a'] = np.array([60., 70.])
    P['m_range'] = ForecastModel(
        'range', 2, lambda a_x, a_date, params, is_mult=False, **k:
        params[0] * np.asarray(a_x) + params[1],
        lambda a_x=None, a_y=None, a_date=None, is_mult=False:
        P['start_a'][:2],
        lambda a_x=None, a_y=None, a_date=None: (P['low_a'], P['high_a']))
    P['date_s'] = pd.Series(d)
    P['date_i'] = d
    P['date_v'] = d.values
    P['y_s'] = pd.Series(y, index=d)
    P['y_v'] = y.copy()
    P['x_v'] = np.arange(70.)
    P['w_v'] = w.copy()
    return P


def xs(t):
    """x, y, date of a table"""
    n = fc.normalize_df(t)
    return n.x.values, n.y.values, pd.DatetimeIndex(n.date)


def season_eval(P, t, m, cached=False, params=None):
    x, _, dt = xs(t)
    p = np.arange(1., m.n_params + 1) / 7 if params is None else params
    kw = m.init_cache(x, dt) if cached else {}
    a = m(x, dt, p, **kw)
    return [a, m(x, dt, p[::-1], is_mult=True, **kw), m(x, dt, p, **kw)]


def fails(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return type(e).__name__


def calls():
    rf = fc.run_forecast
    full = dict(simplify_output=False, include_all_fits=True)
    fx = lambda P, m, t: fc.fit_model(m, fc.normalize_df(P[t]), freq='D')  # noqa: E731
    L = [
        lambda P: rf(P['t1'], extrapolate_years=.1, **full),
        lambda P: rf(P['t1v'], extrapolate_years=.1, **full),
        lambda P: rf(P['t2'], l_model_trend=P['trend'], l_model_season=[],
                     extrapolate_years=.2, **full),
        lambda P: rf(P['t3'], extrapolate_years=.1),
        lambda P: rf(P['t5'], find_outliers=True,
                     l_model_trend=P['trend'], l_season_yearly=[],
                     extrapolate_years=.05, **full),
        lambda P: rf(P['t1s'], l_model_trend=[fm.model_linear],
                     l_model_season=P['season'], season_add_mult='auto',
                     extrapolate_years=.05, **full),
        lambda P: rf(P['t1'], l_model_trend=P['trend'],
                     l_model_season=P['season'], l_model_naive=P['naive'],
                     l_model_calendar=P['cal'], season_add_mult='both',
                     date_start_actuals='2017-01-20', **full),
        lambda P: fails(rf, P['bad']),
        lambda P: fails(rf, P['t1'].y.iloc[:0]),
        lambda P: rf(P['custom'], col_name_y='val', col_name_date='day',
                     col_name_weight='wt', l_model_trend=[fm.model_ramp],
                     l_model_season=[], source_id='zz', **full),
        lambda P: rf(P['s6'], l_model_trend=[fm.model_step, fm.model_spike],
                     l_model_season=[], extrapolate_years=.1, **full),
        lambda P: fx(P, P['m_sum'], 't1'),
        lambda P: fx(P, P['m_sum'], 't1d'),
        lambda P: fx(P, P['m_prod'], 't1v'),
        lambda P: fx(P, P['m_bound'], 't1'),
        lambda P: [fm.simplify_model(P['m_bound'], np.arange(9.),
                                     np.arange(9.), None).n_params,
                   P['m_bound'](np.arange(3.), None, [1., 2.])],
        lambda P: fix(P),
        lambda P: season_eval(P, P['t1'], P['m_deep'], True),
        lambda P: season_eval(P, P['t1d'], P['m_deep'], True),
        lambda P: season_eval(P, P['t1v'].iloc[::-1], P['m_deep']),
        lambda P: [season_eval(P, P['t4'], m, c) for m in (
            fm.model_season_month, fm.model_season_fourier_yearly,
            fm.model_season_wday, P['m_dummy']) for c in (True, False)],
        lambda P: compose(P),
        lambda P: [fm.get_model_from_datelist('dl', P['dates']).n_params] +
        season_eval(P, P['t1'], fm.get_model_dummy('q', P['dates']), True),
        lambda P: [fc.normalize_df(P['t2']), fc.normalize_df(P['s6']),
                   fc.normalize_df(P['t3'])],
        lambda P: [mu.interpolate_df(fc.normalize_df(P['gap']), True),
                   mu.interpolate_df(P['t7'].drop(4), interpolate_y=True)],
        lambda P: [fm.get_model_outliers(fc.normalize_df(P['t5'])),
                   fm.get_model_outliers(P['t7'])],
        lambda P: [fc.get_pi(P['fcst'], n_sims=50),
                   fc.get_pi(P['fcst'], n_sims=20, widening_freq='W')],
        lambda P: [fc.extrapolate_model(
            P['m_sum'], P['params'], '2017-01-01', '2017-02-01', freq=f,
            extrapolate_years=.1) for f in ('D', 'W-SUN')] +
        [mu.detect_freq(P[t]) for t in ('t1', 't2', 't4')],
        lambda P: [mu.is_multiplicative(fc.normalize_df(P[t]))
                   for t in ('t1', 't1v', 't5')],
        lambda P: [fc.get_list_model(P['trend'], P['season'], m)
                   for m in ('add', 'mult', 'both')] +
        [fm.get_l_model_auto_season(pd.DatetimeIndex(P['t1'].date))],
        lambda P: fc.run_l_forecast(
            [fc.ForecastInput('u', P['t1'], P['trend'], P['season']),
             fc.ForecastInput('v', P['t3'], None, [])],
            extrapolate_years=.05, include_all_fits=True),
        lambda P: rf(P['t1'], use_cache=False, l_model_trend=P['trend'],
                     l_model_season=P['season'], extrapolate_years=.05),
        lambda P: fx(P, P['m_sum'], 't1e'),
        lambda P: season_eval(P, P['t1e'], P['m_deep'], True),
        lambda P: rf(P['t1e'], l_model_trend=P['trend'],
                     l_model_season=P['season'], **full),
        lambda P: rf(P['t1d'], l_model_trend=P['trend'],
                     l_model_season=P['season'], **full),
        lambda P: fix(P, 'fixed_a'),
        lambda P: [fx(P, P['m_range'], 't1'), fx(P, P['m_range'], 't1v')],
        lambda P: [P['m_range'].f_bounds(), P['m_range'].f_init_params(),
                   (P['m_range'] + P['m_sum']).f_bounds(
                       P['x_v'], P['y_v'], P['date_i'])],
        lambda P: arrays(P),
        lambda P: rf(P['y_s'], l_model_trend=P['trend'], l_model_season=[],
                     extrapolate_years=.1, **full),
        # the steps of a forecast, on tables that the caller keeps
        lambda P: [fc.run_forecast_single(
            P[t], P['trend'], P['season'], simplify_output=False,
            find_outliers=o, include_all_fits=True, extrapolate_years=.05)
            for t in ('n1', 'n2') for o in (False, True)],
        lambda P: [fc.fit_model(m, P[t], df_actuals=P[t])
                   for t in ('n1', 'n2', 'n3')
                   for m in (fm.model_linear, P['m_sum'], fm.model_naive)],
        lambda P: [mu.interpolate_df(P[t].drop([7, 8]), k, y)
                   for t in ('n1', 'n2') for k in (True, False)
                   for y in (True, False)],
        lambda P: [mu.is_multiplicative(P['n1']),
                   mu.is_multiplicative(P['n2']), mu.detect_freq(P['n3']),
                   fm.get_model_outliers(P['n1']),
                   mu.get_normalized_x_from_date(P['n2'].date),
                   fc.get_df_actuals_clean(P['n1'], 's', 'l'),
                   fc.get_df_actuals_clean(P['n2'], 's', 'l')],
        lambda P: [fc.aggregate_forecast_dict_results(P['meta']),
                   fc.get_pi(P['fcst'].drop(columns='source'), n_sims=9)],
        lambda P: [fc.run_forecast(P['n1'], P['trend'], [], n_cum=None,
                                   pi_widening_freq=f, extrapolate_years=.1)
                   for f in ('D', 'W', 'Y')],
    ]
    return L


def arrays(P):
    """Models of the library called on shared arrays"""
    out = []
    for m in (fm.model_linear, fm.model_season_wday, fm.model_season_month,
              fm.model_calendar_uk, P['m_deep'], P['m_dummy'],
              fm.model_ramp, fm.model_step, fm.model_naive):
        for dt in (P['date_i'], pd.DatetimeIndex(P['date_s'])):
            x, y = P['x_v'], P['y_v']
            if m is fm.model_naive:
                out.append(m(x, dt, [], df_actuals=pd.DataFrame(
                    dict(date=P['date_v'], x=x, y=y))))
                continue
            q = P['params'] if m.n_params == 8 else \
                np.resize(P['params'], m.n_params)
            out += [m(x, dt, q), m(x, dt, q, is_mult=True),
                    m(x, dt, q, **m.init_cache(x, dt))]
            np.random.seed(3)
            out += [m.f_init_params(x, y, pd.DatetimeIndex(dt)),
                    m.f_bounds(x, y, pd.DatetimeIndex(dt)),
                    m.validate_input(x, y, pd.DatetimeIndex(dt))]
    return out


def fix(P, name='fixed'):
    m = fm.fix_params_fmodel(P['m_sum'], P[name])
    x, y, dt = xs(P['t1'])
    p = [2., .2, .3, .4, .6]
    return [m.n_params, m(x, dt, p), m(x, dt, p[::-1], is_mult=True),
            m(x, dt, p), m.f_init_params(x, y, dt), m.f_bounds(x, y, dt),
            P['m_sum'].n_params, P['m_sum'](x, dt, P['params'])]


def compose(P):
    a = P['m_sum'] + fm.model_constant
    b = P['m_sum'] * P['m_prod']
    c = sum([fm.model_linear, fm.model_constant], fm.model_null)
    return [a, b, c, a.n_params, b.n_params, sorted([a, b, c]),
            P['m_sum'] == fm.model_linear + fm.model_season_wday,
            fm.model_null + a, fm.model_null * b, a.l_cache_vars,
            len(b.l_f_validate_input), fm.model_linear.n_params]

# ----------------------------------------------------------------- digests


def flat(v):
    """A value as text; the same text for the same value"""
    if isinstance(v, pd.DataFrame):
        return 'df(%s|%s)' % (
            ','.join('%s:%s:%s' % (
                c, v[c].dtype, '' if c == 'fit_time' else flat(v[c].values))
                for c in v.columns), flat(v.index.values))
    if isinstance(v, pd.Series):
        return 's(%s|%s|%s)' % (v.name, flat(v.values), flat(v.index.values))
    if isinstance(v, dict):
        return '{%s}' % ','.join('%s=%s' % (k, flat(v[k]))
                                 for k in sorted(v, key=str))
    if isinstance(v, (list, tuple)):
        return '[%s]' % ','.join(flat(x) for x in v)
    if isinstance(v, (pd.Index, np.ndarray)):
        v = np.asarray(v)
        if v.dtype == object:
            return flat(list(v))
        if v.dtype.kind == 'f':
            return 'a' + v.astype('<f8').tobytes().hex()
        return 'a(%s)' % ','.join(str(x) for x in v.ravel())
    if isinstance(v, ForecastModel):
        return model_state(v)
    if isinstance(v, float):
        return float(v).hex()
    return str(v)


def model_state(m):
    """The attributes of a model"""
    d = dict(m.__dict__)
    out = []
    for k in sorted(d):
        v = d[k]
        if callable(v):
            v = getattr(v, '__name__', 'f')
        elif isinstance(v, (list, tuple)):
            v = [getattr(x, '__name__', str(x)) if callable(x) else str(x)
                 for x in v]
        elif isinstance(v, dict):
            v = sorted((str(a), getattr(b, '__name__', 'v'))
                       for a, b in v.items())
        out.append('%s:%s' % (k, v))
    return 'm(%s)' % ';'.join(out)


def snapshot(P):
    S = {k: flat(v) for k, v in P.items()}
    # the shared objects of the library itself
    for mod in (fm, fc, mu):
        for k, v in vars(mod).items():
            if isinstance(v, ForecastModel):
                S['%s.%s' % (mod.__name__, k)] = model_state(v)
            elif k.isupper() or k.startswith('_FOURIER'):
                S['%s.%s' % (mod.__name__, k)] = flat(v)
    return S


def crc(v):
    return zlib.crc32(flat(v).encode()) % (2 ** 30)


def session(hist):
    P = make_pool()
    base = snapshot(P)
    L = calls()
    out = []
    for c in hist:
        np.random.seed(17)
        r = crc(L[c - 1](P))
        now = snapshot(P)
        out.append([r, sorted(k for k in base if now.get(k) != base[k])])
    return out


def forked(hist):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = dict(ok=session(hist))
            except BaseException:
                import traceback
                v = dict(err=traceback.format_exc()[-3000:])
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(v))
            sys.stdout.flush()
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            v = json.loads(f.read() or '{}')
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    if 'ok' not in v:
        raise RuntimeError(v.get('err', 'session died'))
    return v['ok']


_FRESH = {}


def fresh(c):
    if c not in _FRESH:
        _FRESH[c] = forked([c])[0][0]
    return _FRESH[c]

# --------------------------------------------------------------- scenarios


N = 47


def scenarios(ctx):
    rng = ctx.rng
    res = [dict(hist=h) for h in ctx.sample(
        ctx.gen['MC_History'], ctx.pick(200, 4000))]
    # every call after itself
    res += [dict(hist=[c, c]) for c in range(1, N + 1)]
    # long sessions: all the calls in some order, with repetitions
    while len(res) < ctx.pick(300, 4600):
        h = list(range(1, N + 1)) if rng.random() < .2 else []
        h += [rng.randint(1, N) for _ in range(rng.randint(3, 9))]
        rng.shuffle(h)
        res.append(dict(hist=h))
    return res


def drive(sc):
    out = forked(sc['hist'])
    return [dict(ev='Call', c=c, out=o[0], fresh=fresh(c), changed=o[1])
            for c, o in zip(sc['hist'], out)]


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    how = rng.choice(['out', 'changed', 'fresh'])
    if how == 'changed':
        e['changed'] = ['t1']
    else:
        e[how] += 1
    return how, tr
