"""Drivers of C03, C04, C06 - C10: forecast calls (spec/Pipeline.tla)."""
import zlib

from numpy.linalg import LinAlgError

from anticipy import forecast as fc
from anticipy import forecast_models as fm
from anticipy.forecast_models import ForecastModel

from lib import *
from props.models_common import real_leaf

MC = [dict(module='MC_Pipeline', thorough_cfg='MC_Pipeline_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Pipeline'
DAY0 = 18000

# ------------------------------------------------------------------ terms


def T(n, nm=None, v=()):
    return dict(k='leaf', n=n, nm=nm or n, c=[], v=v if isinstance(
        v, (dict, str)) else list(v))


def PR(nm, np_=0, a=0, b=0, w=0, checks=(), fail=0, how='raise'):
    """A probe model: value a * is_mult + sum (i + 1) p_i + b x + w weekday;
    its fit fails at call number `fail` of the solver."""
    return T('probe', nm, dict(np=np_, a=a, b=b, w=w, init=1,
                               bounds=[-1000, 1000], checks=list(checks),
                               cache=[], fail=fail, how=how))


NULL = T('null')
NAIVE = T('naive')
SNAIVE = T('snaive', 'snaive_wday')
LINEAR = T('linear')


def compose(op, a, b):
    if a['nm'] == 'null':
        return b
    if b['nm'] == 'null':
        return a
    return dict(k=op, n='', nm='(%s%s%s)' % (
        a['nm'], '+' if op == 'add' else '*', b['nm']), c=[a, b], v=[])


def leaves(t):
    return [t] if t['k'] == 'leaf' else leaves(t['c'][0]) + leaves(t['c'][1])


def nparams(t):
    if t['k'] != 'leaf':
        return sum(nparams(c) for c in t['c'])
    n = t['n']
    if n == 'probe':
        return t['v']['np']
    return dict(linear=2, constant=1, ramp=2, season_wday=6,
                season_fourier_yearly=20, season_month=11, exponential=2,
                step=2, sigmoid=3, decay=3, spike_date=1, step_date=1,
                dummy=1, calendar=1 if t['nm'] == 'calendar_us' else 2,
                quasilinear=3).get(n, 0)


def library(rng):
    """Predefined models, named as the library names them."""
    d = rng.randint(15000, 20000) * DAY
    ts_ = [T(n) for n in ('season_wday', 'season_month', 'step', 'sigmoid',
                          'season_fourier_yearly', 'exponential',
                          'quasilinear', 'decay', 'ramp')]
    ts_ += [T('calendar', c, c) for c in ('calendar_uk', 'calendar_us',
                                          'calendar_ita')]
    ts_ += [T('linear', 'linear_nondec'),
            T('spike_date', v=[d, d + 5 * DAY]), T('step_date', v=[d]),
            T('dummy', 'season_wday_2', dict(kind='weekday<5', l=[])),
            T('dummy', 'dummy_christmas', dict(kind='christmas', l=[])),
            T('dummy', 'dummy_month_start', dict(kind='month_start', l=[])),
            T('dummy', 'dh', dict(kind='holiday', l=[rng.randint(1, 12),
                                                     26])),
            T('dummy', 'dx', dict(kind='x', l=[2, 3, 9]))]
    for t in ts_:
        t['nm'] = real_leaf(t).name
    return ts_


def _check(name, how):
    """Validations that raise, or that return False."""
    def ok(a_x, a_y, a_date):
        return dict(
            dates=lambda: a_date is not None,
            weekdays=lambda: a_date is not None and
            len(set(a_date.weekday)) == 7,
            positive=lambda: bool((a_y > 0).all()),
            c2=lambda: len(a_y) >= 5,
            c3=lambda: bool((np.asarray(a_x) <= 0).any()),
            never=lambda: False)[name]()

    def f_assert(a_x, a_y, a_date):
        assert ok(a_x, a_y, a_date)
        # validations that only make assertions return nothing
        return None if name in ('dates', 'c2') else True

    def f_numpy(a_x, a_y, a_date):
        return np.bool_(ok(a_x, a_y, a_date))
    return f_assert if how == 'raise' else \
        f_numpy if name in ('positive', 'c3') else ok


_SINK = []      # what the validations of models named seen* were called with


def real(t):
    if t['k'] == 'add':
        return real(t['c'][0]) + real(t['c'][1])
    if t['k'] == 'mult':
        return real(t['c'][0]) * real(t['c'][1])
    n, v = t['n'], t['v']
    if n == 'naive':
        return fm.model_naive
    if n == 'snaive':
        return fm.model_snaive_wday
    if n == 'constant':
        return fm.model_constant
    if n != 'probe':
        return real_leaf(dict(n=n, nm=t['nm'], v=v))
    calls = [0]

    def f(a_x, a_date, params, is_mult=False, **kw):
        assert len(params) == v['np']
        calls[0] += 1
        y = v['a'] * int(is_mult) + v['b'] * np.asarray(a_x, float)
        if v['w']:
            y = y + v['w'] * np.asarray(a_date.weekday, float)
        for i, p in enumerate(params):
            y = y + (i + 1) * p
        if v['fail'] and calls[0] >= v['fail']:
            if v['how'] == 'raise':
                raise LinAlgError('probe')
            return y * np.nan
        return y

    lv = [_check(c, v['how']) for c in v['checks']]
    if t['nm'].startswith('seen'):
        def rec(a_x, a_y, a_date):
            _SINK.append((t['nm'], np.array(a_x), np.array(a_y), a_date))
            return True
        lv.append(rec)
    m = ForecastModel(
        t['nm'], v['np'], f,
        lambda a_x=None, a_y=None, a_date=None, is_mult=False:
        np.full(v['np'], float(v['init'])),
        lambda a_x=None, a_y=None, a_date=None:
        ([v['bounds'][0]] * v['np'], [v['bounds'][1]] * v['np']),
        l_f_validate_input=lv or None)
    return m


def terms(o):
    """Optional list of terms -> list of models or None"""
    return None if not o else [real(t) for t in o[0]]


def CFG(trend=None, season=None, weekly=None, yearly=None, naive=None,
        cal=None, mode='add'):
    o = lambda v: [] if v is None else [v]  # noqa: E731
    return dict(trend=o(trend), season=o(season), weekly=o(weekly),
                yearly=o(yearly), naive=o(naive), cal=o(cal), mode=mode)

# ----------------------------------------------------------------- calling


NAMES = ['a', 'b', 'c', 'd', 'e', 'f']


def table(sc, rows=None):
    """Rows of a scenario: dict(s, t, y, w[, x])."""
    rows = sc['rows'] if rows is None else rows
    names = sc.get('names') or NAMES
    d = {}
    if sc.get('sourced'):
        d['source'] = [names[r['s'] - 1] for r in rows]
    if sc['dated']:
        d['date'] = [ts(r['t']) for r in rows]
        if sc.get('with_x'):
            d['x'] = [r['x'] for r in rows]
    elif sc.get('pos') is None:
        d['x'] = [r['t'] for r in rows]
    d['y'] = np.array([np.nan if r['y'] is None else r['y']
                       for r in rows], dtype=float)
    if sc['weighted']:
        d['weight'] = np.array([np.nan if r['w'] is None else r['w']
                                for r in rows], dtype=float)
    df = pd.DataFrame(d)
    if sc.get('pos') is not None:
        # samples of a source are numbered by their positions (`number`)
        df.index = [sc['pos'] + 2 * i for i in range(len(df))]
    return df


def number(sc, pos):
    """A copy of a scenario without dates and x: samples of a source are
    numbered from 0, in the order of the rows."""
    n, rows = {}, []
    for r in sc['rows']:
        n[r['s']] = n.get(r['s'], -1) + 1
        rows.append(dict(r, t=n[r['s']]))
    start = sc['start'] if sc['start'] is None else 1
    return dict(sc, rows=rows, pos=pos, start=start)


def add_x(sc, rows):
    """The x that normalization gives (see C01)."""
    first = {}
    for r in rows:
        if not sc['dated']:
            r['x'] = r['t']
        elif not sc.get('with_x'):
            s = r['s'] if sc.get('sourced') else 1
            if s not in first:
                d0 = r['t'] // DAY
                first[s] = (d0 - (d0 + 3) % 7) * DAY + r['t'] % DAY
            r['x'] = (r['t'] - first[s]) // DAY


def enc_rows(sc, rows):
    return [dict(s=r['s'] if sc.get('sourced') else 1, t=r['t'], x=r['x'],
                 y=[] if r['y'] is None else [r['y']],
                 w=([] if r['w'] is None else [r['w']]) if sc['weighted']
                 else [1]) for r in rows]


def call(sc, df, seed=7, **over):
    c = sc['cfg']
    kw = dict(
        l_model_trend=terms(c['trend']), l_model_season=terms(c['season']),
        l_season_weekly=terms(c['weekly']),
        l_season_yearly=terms(c['yearly']), l_model_naive=terms(c['naive']),
        l_model_calendar=terms(c['cal']), season_add_mult=c['mode'],
        date_start_actuals=None if sc['start'] is None else
        (ts(sc['start']) if sc['dated'] else sc['start']),
        extrapolate_years=sc['p'] / sc['q'],
        include_all_fits=sc.get('all', True), simplify_output=False)
    kw.update(over)
    np.random.seed(seed)
    return fc.run_forecast(df, **kw)


def crc(*v):
    return zlib.crc32(repr(v).encode()) % (2 ** 30)


def sid(sc, name):
    if not sc.get('sourced'):
        return 1 if name == 'src' else 0
    names = sc.get('names') or NAMES
    return names.index(name) + 1 if name in names else 0


def dt(sc, v):
    return minutes(v) if sc['dated'] else num(v)


def results(sc, res):
    """The tables as lists of records."""
    md, d, f = res['metadata'], res['data'], res['forecast']
    aic = [float(v) for v in md.aic_c]
    fin = sorted({v for v in aic if not np.isnan(v)})
    meta = []
    for r, a in zip(md.itertuples(), aic):
        k = nparams_of(sc, r.model)
        meta.append(dict(
            s=sid(sc, r.source), nm=r.model, st=r.status,
            np=len(r.params),
            cost=num(r.cost, 288) if k == 0 else fix(r.cost, 288),
            aic=fix(a, 1000), rank=fin.index(a) + 1 if a in fin else 0,
            best=bool(r.is_best_fit), am=r.add_mult))
    data = [dict(s=sid(sc, r.source), t=dt(sc, r.date), y=opt(r.y),
                 w=opt(r.weight), nm=r.model, act=bool(r.is_actuals),
                 best=bool(r.is_best_fit)) for r in d.itertuples()]
    fcst = [dict(s=sid(sc, r.source), t=dt(sc, r.date), y=opt(r.y),
                 nm=r.model, act=bool(r.is_actuals))
            for r in f.itertuples()]
    return meta, data, fcst


_NP = {}


def nparams_of(sc, name):
    return _NP.get(name, 1)


def note_params(cfg):
    """Candidates without parameters have exact costs: names are unique."""
    c = cfg
    lists = [o[0] for o in (c['trend'], c['season'], c['weekly'],
                            c['yearly'], c['naive'], c['cal']) if o]
    _NP.clear()
    _NP.update({'naive': 0, 'snaive_wday': 0})
    for lst in lists:
        for t in lst:
            _NP[t['nm']] = nparams(t)
    names = {lf['nm']: nparams(lf) for lst in lists for t in lst
             for lf in leaves(t)}
    names.update({'linear': 2, 'ramp': 2, 'season_wday': 6,
                  'season_fourier_yearly': 20})
    return names


def np_by_name(names, nm):
    """Parameters of a (composed) model from its name."""
    toks = nm.replace('(', ' ').replace(')', ' ').replace('+', ' ') \
        .replace('*', ' ').split()
    return sum(names.get(t, 0) for t in toks)


def run_event(sc, rows=None, simple=True, only=''):
    rows = [dict(r) for r in (sc['rows'] if rows is None else rows)]
    add_x(sc, rows)
    names = note_params(sc['cfg'])
    df = table(sc, rows)
    res = call(sc, df)
    for nm in set(res['metadata'].model):
        _NP[nm] = np_by_name(names, nm)
    ok = True
    if simple:
        f2 = call(sc, df, simplify_output=True)
        ok = bool(f2.equals(res['forecast']))
    meta, data, fcst = results(sc, res)
    return dict(ev='Run', only=only, rows=enc_rows(sc, rows), dated=sc['dated'],
                weighted=sc['weighted'],
                start=[] if sc['start'] is None else [sc['start']],
                p=sc['p'], q=sc['q'], all=sc.get('all', True),
                cfg=sc['cfg'], meta=meta, data=data, fc=fcst, simple=ok)


def digest(sc, res, source, exact=True, actuals=False, all_=True):
    """The results of one source (without intervals) as [k, v]."""
    md, d, f = res['metadata'], res['data'], res['forecast']
    names = sc.get('names') or NAMES
    name = names[source - 1] if sc.get('sourced') else 'src'
    out = []
    md = md.loc[md.source == name]
    d = d.loc[d.source == name]
    f = f.loc[f.source == name]
    if not actuals:
        d, f = d.loc[~d.is_actuals], f.loc[~f.is_actuals]
    key = lambda v: repr(v) if not isnull(v) else 'null'  # noqa: E731
    for r in md.sort_values('model').itertuples():
        if not all_ and not r.is_best_fit:
            continue
        k = '%s %s %s %s %d' % (r.model, r.status, r.add_mult,
                                r.is_best_fit, len(r.params))
        vals = [r.cost, r.aic_c] + list(r.params)
        if exact:
            out.append(dict(k=k, v=crc([float(v) for v in vals])))
        else:
            out += [dict(k=k, v=fix(v, 1000)) for v in vals[:2]]
    for what, tab in (('data', d), ('fc', f)):
        # actuals may come in any order if they share a date
        cols = ['is_actuals', 'model', 'date', 'y']
        tab = tab.sort_values(cols)
        if not all_:
            tab = tab.loc[tab.is_best_fit | tab.is_actuals] \
                if 'is_best_fit' in tab else tab
        if exact:
            for m, g in tab.groupby('model'):
                out.append(dict(k='%s %s' % (what, m), v=crc(
                    [(str(a), key(b)) for a, b in zip(g.date, g.y)])))
        else:
            out += [dict(k='%s %s %s' % (what, r.model, r.date),
                         v=fix(r.y, 1000)) for r in tab.itertuples()]
    return out


def side(sc, rows, src):
    """One side of a Pair event"""
    rows = [dict(r) for r in rows]
    add_x(sc, rows)
    return dict(rows=enc_rows(sc, rows), dated=sc['dated'], cfg=sc['cfg'],
                start=[] if sc['start'] is None else [sc['start']],
                p=sc['p'], q=sc['q'], src=src)

# -------------------------------------------------------------- generators


STEPS = [DAY, DAY, DAY, 7 * DAY, 60, 'MS', 'M', 'YS', 'QS', 'Q', 0]


def gen_series(rng, s, step, n, gap=.15, unused=.2, dup=0., start_day=None,
               big=20, wmax=3):
    """Rows of a source on the grid of `step` (0: no dates)."""
    d0 = rng.randint(15000, 20000) if start_day is None else start_day
    if step == 0:
        pts = list(range(d0 % 50 - 20, d0 % 50 - 20 + n))
    elif isinstance(step, str):
        pts = points(step, n, d0)
    else:
        tod = rng.choice([0, 0, 600]) if step != 60 else 0
        pts = [d0 * DAY + tod + i * step for i in range(n)]
    keep = [p for i, p in enumerate(pts)
            if i in (0, 1) or rng.random() >= gap]
    rows, v = [], rng.randint(1, big)
    for p in keep:
        v = max(-big, min(big, v + rng.randint(-3, 4)))
        u = rng.random()
        w = rng.choice([1, 1, 2, wmax])
        y = v
        if u < unused * .5:
            y = None if rng.random() < .6 else rng.randint(-big, big)
            if y is not None:
                w = rng.choice([0, 0, None, -1])
        elif u < unused:
            w = rng.choice([0, None])
        rows.append(dict(s=s, t=p, y=y, w=w))
    regular = len(set(b - a for a, b in zip(keep, keep[1:]))) <= 1
    if dup and regular:
        for r in list(rows):
            if rng.random() < dup:
                rows.append(dict(r) if rng.random() < .4 else
                            dict(r, y=rng.randint(1, big),
                                 w=rng.choice([1, 2])))
        rows.sort(key=lambda r: r['t'])
    return rows


def probes(rng, dated, small):
    """Random models without parameters."""
    k = rng.randint(0, 9)
    return PR('q%d' % k, 0, a=rng.randint(0, 2), b=k % 2 if small else 0,
              w=rng.randint(0, 3) if dated else 0,
              checks=rng.choice([[], [], [], ['positive'], ['c2'], ['c3'],
                                 ['never'], ['weekdays'], ['dates']]),
              how=rng.choice(['raise', 'false']))


def probes_n(rng, k, fails=.4):
    np_ = rng.choice([1, 1, 2, 3, 5, 8])
    f = rng.random() < fails
    return PR('n%d' % k, np_, b=0, checks=rng.choice(
        [[], [], ['positive'], ['c2']]), fail=rng.choice([1, 2]) if f else 0,
        how=rng.choice(['raise', 'nan']))


def unique(ts_):
    seen, out = set(), []
    for t in ts_:
        if t['nm'] not in seen:
            seen.add(t['nm'])
            out.append(t)
    return out


def gen_cfg(rng, dated, small, params=True, modes=('add', 'mult', 'both'),
            lib=False):
    """Model lists; every name stands for one model."""
    pool = unique([probes(rng, dated, small) for _ in range(5)] +
                  ([probes_n(rng, i) for i in range(3)] if params else []))
    if lib:
        # (not constant: its initial parameter is random)
        pool.append(T('linear'))
        if lib == 'ramp':
            pool.append(T('ramp'))
        elif lib == 'all':
            pool = rng.sample(pool, 3) + rng.sample(library(rng), 6)
    pick = lambda a, b: rng.sample(pool, min(len(pool), rng.randint(a, b)))  # noqa: E731
    trend = pick(1, 3)
    if rng.random() < .2:
        trend.append(compose(rng.choice(['add', 'mult']),
                             *rng.sample(pool, 2)))
    season = rng.choice([[], pick(0, 2), pick(1, 2) + [NULL]])
    naive = rng.choice([None, None, [], [NAIVE], [NAIVE, SNAIVE]
                        if dated else [NAIVE], pick(1, 1) + [NAIVE]])
    cal = rng.choice([None, None, [], pick(1, 2)])
    if rng.random() < .3:
        trend = trend + trend[:1]
    return CFG(trend, season, naive=naive, cal=cal, mode=rng.choice(modes))


def years(rng, step, k=None):
    """A horizon of k samples as a fraction p / q of years"""
    u = {60: 8760, DAY: 365, 7 * DAY: 52, 'MS': 12, 'M': 12, 'QS': 4,
         'Q': 4, 'YS': 1, 'Y': 1, 0: 100}.get(step, 365)
    k = rng.randint(0, 12) if k is None else k
    p, q = 2 * k + 1, 2 * u
    return p, q


def gen_scenario(rng, n_src=1, step=None, nmax=30, **kw):
    step = rng.choice(STEPS) if step is None else step
    dated = step != 0
    rows = []
    for s in range(1, n_src + 1):
        n = rng.choice([1, 2, 3, 4, 6, 9, 14, 20, nmax])
        if step == 60:
            n = min(n, 30)
        if step in ('YS', 'Y'):
            n = min(n, 9)
        rows.append(gen_series(
            rng, s, step, n, gap=rng.choice([0, 0, .2]),
            unused=rng.choice([0, .2, .6, 1.0 if rng.random() < .3 else .4]),
            dup=rng.choice([0, 0, .4]) if kw.get('dup', True) else 0))
    if n_src > 1:
        flat = []
        order = [s for s, rs in enumerate(rows) for _ in rs]
        how = rng.choice(['blocks', 'shuffle', 'reverse'])
        if how == 'shuffle':
            rng.shuffle(order)
        elif how == 'reverse':
            order.reverse()
        its = [iter(r) for r in rows]
        flat = [next(its[s]) for s in order]
    else:
        flat = rows[0]
    ts_ = [r['t'] for r in flat]
    start = None
    if rng.random() < .35:
        start = rng.choice(ts_) + rng.choice([0, 0, 1])
        if rng.random() < .1:
            start = max(ts_) + 1
        if not dated:
            start = int(start)
    small = step in (DAY, 60, 0) and nmax <= 60
    p, q = years(rng, step)
    cfg = gen_cfg(rng, dated, small, **{
        k: v for k, v in kw.items() if k != 'dup'})
    if len({(r['s'], r['t']) for r in flat}) < len(flat):
        # naive models do not support several samples per date
        def no_naive(o):
            return [[t for t in o[0] if t['n'] not in ('naive', 'snaive')]]
        cfg['naive'] = no_naive(cfg['naive'] or [[]])
    return dict(rows=flat, dated=dated, weighted=rng.random() < .8,
                sourced=n_src > 1 or rng.random() < .3, start=start, p=p,
                q=q, step=step, all=rng.random() < .75,
                cfg=cfg,
                names=rng.sample(['z', 'b', 'Aa', 'k 1', 'q', 'm:x'], n_src))


def in_domain(sc, small=True):
    """Domain of the properties: see the assumptions of C11, C12."""
    for s in {r['s'] for r in sc['rows']}:
        R = [r for r in sc['rows'] if r['s'] == s]
        t = sorted({r['t'] for r in R})
        if len(t) >= 2:
            d = min(b - a for a, b in zip(t, t[1:]))
            step = sc['step']
            if step in (60, DAY, 7 * DAY) and d != step:
                return False
            if step in ('YS', 'QS', 'MS', 'M', 'Q'):
                lim = dict(YS=(365, 366), QS=(89, 92), Q=(89, 92),
                           MS=(28, 31), M=(28, 31))[step]
                if not lim[0] <= d / DAY <= lim[1]:
                    return False
    return not small or small_enough(sc)


def size(t, xmax):
    """Bound of the values of a model without parameters"""
    if t['k'] == 'add':
        return sum(size(c, xmax) for c in t['c'])
    if t['k'] == 'mult':
        return size(t['c'][0], xmax) * size(t['c'][1], xmax)
    if t['n'] == 'probe':
        v = t['v']
        return v['a'] + v['b'] * xmax + 6 * v['w']
    return 20


def small_enough(sc):
    """Costs stay within the integers of TLC."""
    rows = [dict(r) for r in sc['rows']]
    add_x(sc, rows)
    xmax = max(abs(r['x']) for r in rows)
    c = sc['cfg']
    big = 1
    for o, combine in ((c['trend'], 1), (c['season'], 1), (c['cal'], 1)):
        v = max([size(t, xmax) for t in (o[0] if o else [])] + [1])
        big = big * v if c['mode'] != 'add' else big + v
    w = 3 if sc['weighted'] else 1
    return (12 * w * (big + 20)) ** 2 * len(rows) < 1.5e9


def from_tlc(ctx, n):
    """Tables enumerated by the model checker, with random model lists."""
    out = []
    seen = set()
    for g in ctx.sample(ctx.gen.get('MC_Pipeline', []), n * 2):
        key = repr(g)
        if key in seen or len(out) >= n:
            continue
        seen.add(key)
        rng = ctx.rng
        step = rng.choice([DAY, 0])
        t0 = 18000 * DAY
        conv = (lambda t: t) if step else (lambda t: (t - t0) // DAY - 3)
        rows = [dict(s=r['s'], t=conv(r['t']), y=r['y'][0] if r['y'] else
                     None, w=r['w'][0] if r['w'] else None)
                for r in g['rows']]
        out.append(dict(
            rows=rows, dated=bool(step), weighted=True, sourced=True,
            start=conv(g['start'][0]) if g['start'] else None,
            p=2 * rng.randint(0, 8) + 1, q=730 if step else 200, step=step,
            all=rng.random() < .7, cfg=gen_cfg(rng, bool(step), True),
            names=rng.choice([['a', 'b'], ['b', 'a'], ['x 1', 'Z']])))
        if not small_enough(out[-1]):
            out.pop()
    return out
