"""Drivers of C14, C15, C16, C17, C25: programs that build and evaluate
models (spec/Models.tla)."""
import zlib

from pandas.tseries.holiday import Holiday, next_monday

from anticipy import forecast as fc
from anticipy import forecast_models as fm
from anticipy.forecast_models import ForecastModel

from lib import *

MC = [dict(module='MC_Model', thorough_cfg='MC_Model_thorough.cfg')]
CONF = 'Conf_Model'

# ---------------------------------------------------------------- leaves


def _checks(name):
    def weekdays(a_x, a_y, a_date):
        assert a_date is not None and len(set(a_date.weekday)) == 7

    def positive(a_x, a_y, a_date):
        assert (a_y > 0).all()

    def many(a_x, a_y, a_date):
        return bool(len(a_y) >= 5)

    def origin(a_x, a_y, a_date):
        assert a_x.min() <= 0
        return True
    return dict(weekdays=weekdays, positive=positive, c2=many,
                c3=origin)[name]


CHECKS = {k: _checks(k) for k in ('weekdays', 'positive', 'c2', 'c3')}


def _wday(a_x, a_date):
    return a_date.weekday


def probe(leaf):
    v = leaf['v']
    var = v['cache'][0] if v['cache'] else None

    def f(a_x, a_date, params, is_mult=False, **kw):
        assert len(params) == v['np']
        wd = kw.get(var) if var else None
        if wd is None:
            wd = a_date.weekday
        y = v['a'] * int(is_mult) + v['b'] * np.asarray(a_x, float)
        y = y + v['w'] * np.asarray(wd, float)
        for i, p in enumerate(params):
            y = y + (i + 1) * p
        return y

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        return np.array([v['init'] + i + 1 + 10 * int(is_mult)
                         for i in range(v['np'])], float)

    def f_bounds(a_x=None, a_y=None, a_date=None):
        return [v['bounds'][0]] * v['np'], [v['bounds'][1]] * v['np']
    std = [c for c in v['cache'] if c in fm._dict_f_cache]
    own = {c: _wday for c in v['cache'] if c not in fm._dict_f_cache}
    return ForecastModel(
        leaf['nm'], v['np'], f, f_init, f_bounds,
        l_f_validate_input=[CHECKS[c] for c in v['checks']] or None,
        l_cache_vars=std or None, dict_f_cache=own or None)


def f_dummy(v):
    kind = v['kind']
    if kind == 'weekday<5':
        return lambda a_x, a_date, **k: (a_date.weekday < 5).astype(float)
    if kind == 'x':
        return [float(x) for x in v['l']] if v.get('float') else list(v['l'])
    if kind == 't':
        d = [ts(m) for m in v['l']]
        how = v.get('how', 'ts')
        if how == 'str':
            return [str(x) for x in d]
        if how == 'index':
            return pd.DatetimeIndex(d)
        if how == 'series':
            return pd.Series(d)
        if how == 'py':
            return [x.to_pydatetime() for x in d]
        return d
    if kind == 'holiday':
        return Holiday('h%d-%d' % tuple(v['l']), month=v['l'][0],
                       day=v['l'][1], observance=next_monday)
    raise ValueError(kind)


def real_leaf(leaf):
    n, v = leaf['n'], leaf['v']
    lib = dict(null=fm.model_null, constant=fm.model_constant,
               linear=fm.model_linear, quasilinear=fm.model_quasilinear,
               exponential=fm.model_exp, decay=fm.model_decay,
               step=fm.model_step, two_steps=fm.model_two_steps,
               spike=fm.model_spike, sigmoid=fm.model_sigmoid,
               ramp=fm.model_ramp, season_wday=fm.model_season_wday,
               season_month=fm.model_season_month,
               season_fourier_yearly=fm.model_season_fourier_yearly)
    alt = dict(linear_nondec=fm.model_linear_nondec,
               sigmoid_step=fm.model_sigmoid_step,
               season_month_old=fm.model_season_month_old)
    if leaf['nm'] in alt:
        return alt[leaf['nm']]
    if n in lib and leaf.get('bounds') is None:
        return lib[n]
    if n in lib:
        return ForecastModel(
            leaf['nm'], lib[n].n_params, lib[n].f_model,
            lambda a_x=None, a_y=None, a_date=None, is_mult=False:
            np.array([b[0] if b else 1.0 for b in leaf['bounds']]),
            lambda a_x=None, a_y=None, a_date=None:
            ([b[0] if b else -np.inf for b in leaf['bounds']],
             [b[0] if b else np.inf for b in leaf['bounds']]),
            l_cache_vars=lib[n].l_cache_vars or None)
    if n == 'spike_date':
        return fm.get_model_spike_date(ts(v[0]), ts(v[1]))
    if n == 'step_date':
        return fm.get_model_step_date(ts(v[0]))
    if n == 'dummy':
        lib = dict(season_wday_2=fm.model_season_wday_2,
                   dummy_christmas=fm.model_dummy_christmas,
                   dummy_month_start=fm.model_dummy_month_start)
        if leaf['nm'] in lib:
            return lib[leaf['nm']]
        return fm.get_model_dummy(leaf['nm'], f_dummy(v))
    if n == 'dummies':
        return fm.get_model_from_datelist(
            leaf['nm'], *[f_dummy(w) for w in v])
    if n == 'calendar':
        return dict(calendar_uk=fm.model_calendar_uk,
                    calendar_us=fm.model_calendar_us,
                    calendar_ita=fm.model_calendar_ita)[v]
    if n == 'probe':
        return probe(leaf)
    raise ValueError(n)


def L(n, v=(), nm=None, **k):
    return dict(op='leaf', n=n, nm=nm or n, v=v if isinstance(
        v, (dict, str)) else list(v), **k)


def P(nm, np_, w=0, checks=(), cache=(), a=5, b=2, init=None, bounds=None):
    return L('probe', dict(
        np=np_, a=a, b=b, w=w, init=3 * np_ if init is None else init,
        bounds=bounds or [-50 * np_, 90 * np_], checks=list(checks),
        cache=list(cache)), nm)


START = [L('null'), P('p1', 1), P('p2', 2, 1, ['c2'], ['mask_p2'])]


def rand_probe(rng, k):
    cache = rng.choice([[], [], ['mask_q%d' % k], ['shared'], ['a_weekday']])
    checks = rng.sample(['weekdays', 'positive', 'c2', 'c3'],
                        rng.choice([0, 0, 1, 2]))
    n = rng.choice([0, 1, 1, 2, 3])
    return P('q%d' % k, n, rng.choice([0, 1, 3]) if cache else 0, checks,
             cache, a=rng.randint(1, 9), b=rng.randint(-3, 3),
             init=rng.randint(-9, 9),
             bounds=[rng.randint(-99, -40), rng.randint(40, 99)])


DUMMY = [L('dummy', dict(kind='weekday<5', l=[]), 'season_wday_2'),
         L('dummy', dict(kind='christmas', l=[]), 'dummy_christmas'),
         L('dummy', dict(kind='month_start', l=[]), 'dummy_month_start')]


def lib_leaves(rng):
    d = rng.randint(17000, 20000)
    return [L('constant'), L('linear'), L('season_wday'), L('season_month'),
            L('season_fourier_yearly'), L('ramp'), L('step')] + DUMMY + [
        L('calendar', 'calendar_uk', 'calendar_uk'),
        L('calendar', 'calendar_us', 'calendar_us'),
        L('calendar', 'calendar_ita', 'calendar_ita'),
        L('dummy', dict(kind='x', l=[2, 3, 9, 30]), 'dx'),
        L('dummy', dict(kind='t', l=[d * DAY + k * DAY for k in (0, 3, 9)]),
          'dt'),
        L('dummy', dict(kind='holiday', l=[rng.randint(1, 12), 26]), 'dh'),
        P('q1', 1, 1, (), ['a_weekday']), P('q2', 0, 2, (), ['shared']),
        P('q3', 1, 3, (), ['shared']), P('q4', 1)], d


def nparams(lf):
    return real_leaf(lf).n_params


# ---------------------------------------------------------------- terms


def leaf_bound(lf, xmax):
    if lf['n'] == 'probe':
        v = lf['v']
        return v['a'] + abs(v['b']) * xmax + 6 * v['w'] + \
            sum((i + 1) * 9 for i in range(v['np']))
    return 1000


def bound(pool, i, xmax):
    b = []
    for o in pool[:i + 1]:
        if o['op'] == 'leaf':
            b.append(leaf_bound(o, xmax) + 1)
        elif o['op'] == 'add':
            b.append(b[o['i'] - 1] + b[o['j'] - 1])
        elif o['op'] == 'mult':
            b.append(b[o['i'] - 1] * b[o['j'] - 1])
        else:
            b.append(b[o['i'] - 1] * 2)
    return b[i]


def ev_leaf(lf):
    return dict(ev='Make', op='leaf', n=lf['n'], nm0=lf['nm'],
                v=lf['v'], i=0, j=0)


def samples(rng, k, d0, spread=60, xmax=6, tod=False):
    r = []
    for _ in range(k):
        d = d0 + rng.randint(0, spread)
        r.append(dict(x=rng.randint(0, xmax), d=d, t=d * DAY + (
            rng.choice([0, 0, 1, 540, 1439]) if tod else 0)))
    return r


def arrays(smp):
    return (np.array([float(s['x']) for s in smp]),
            pd.DatetimeIndex([ts(s['t']) for s in smp]))


def cvars(m):
    return sorted(set(m.l_cache_vars) | set(m.dict_f_cache))


def h(s):
    return zlib.crc32(s.encode()) % 10 ** 9


def snap(pool):
    x, d = np.arange(4.0), pd.date_range('2019-12-24', periods=4)
    out = []
    for m in pool:
        np.random.seed(7)
        p = [(-1) ** i * (i + 1) for i in range(m.n_params)]
        out.append(h(repr((
            m.name, m.n_params, cvars(m), len(m.l_f_validate_input),
            np.asarray(m(x, d, np.array(p, float), True)).tolist(),
            np.asarray(m.f_init_params(x, x + 1, d, True)).tolist(),
            [list(map(float, b)) for b in m.f_bounds(x, x + 1, d)]))))
    return out


class Machine:
    def __init__(self):
        self.ops, self.pool, self.evs = [], [], []

    def make(self, op):
        pool = self.pool
        before = snap(pool[:6])
        if op['op'] == 'leaf':
            m = real_leaf(op)
            e = ev_leaf(op)
        else:
            a = pool[op['i'] - 1]
            if op['op'] == 'add':
                m = a + pool[op['j'] - 1]
            elif op['op'] == 'mult':
                m = a * pool[op['j'] - 1]
            else:
                v = [float(q[0]) if q else np.nan for q in op['v']]
                m = fm.fix_params_fmodel(a, v)
            e = dict(ev='Make', op=op['op'], i=op['i'], j=op.get('j', 0),
                     v=op.get('v', []), n='', nm0='')
        pool.append(m)
        self.ops.append(op)
        e.update(np=int(m.n_params), nm=m.name, cv=cvars(m), before=before,
                 after=snap(pool[:6])[:len(before)])
        self.evs.append(e)
        return m

    def eval(self, i, r, p, smp, value=True):
        m = self.pool[i - 1]
        x, d = arrays(smp)
        pa = np.array(p, dtype=float)
        x0, p0 = x.copy(), pa.copy()
        out = np.asarray(m(x, d, pa, bool(r)) + 0 * x)
        again = np.asarray(m(x, d, pa, bool(r)) + 0 * x)
        cache = m.init_cache(x, d)
        outc = np.asarray(m(x, d, pa, bool(r), **cache) + 0 * x)
        self.evs.append(dict(
            ev='Eval', m=i, r=r, p=[num(q) for q in p] if value else [],
            s=smp if value else [], out=[num(v) for v in out]
            if value else [], want=['value'] if value else [],
            raw=h(repr(out.tolist())), rawc=h(repr(outc.tolist())),
            keys=sorted(cache),
            same=bool((x0 == x).all() and (p0 == pa).all() and
                      repr(again.tolist()) == repr(out.tolist()))))

    def valid(self, i, smp, y, dated=True):
        x, d = arrays(smp)
        a_y = np.array(y, float)
        has = []
        if dated:
            has.append('dates')
            if len(set(d.weekday)) == 7:
                has.append('weekdays')
        else:
            d = None
        if (a_y > 0).all():
            has.append('positive')
        if len(y) >= 5:
            has.append('c2')
        if x.min() <= 0:
            has.append('c3')
        if len(set(x.tolist())) >= 4:
            has.append('x4')
        self.evs.append(dict(ev='Valid', m=i, has=has, ok=bool(
            self.pool[i - 1].validate_input(x, a_y, d))))

    def guess(self, i, r, smp):
        x, d = arrays(smp)
        m = self.pool[i - 1]
        y = x * 2 + 1
        lo, hi = m.f_bounds(x, y, d)
        self.evs.append(dict(
            ev='Guess', m=i, r=r, lo=[num(v) for v in lo],
            hi=[num(v) for v in hi],
            init=[num(v) for v in m.f_init_params(x, y, d, bool(r))]))

    def order(self, i, j):
        a, b = self.pool[i - 1], self.pool[j - 1]
        ra, rb = ranks([a.name, b.name])
        self.evs.append(dict(
            ev='Order', a=i, b=j, ra=ra, rb=rb, rank=a.name == b.name,
            eq=bool(a == b), ne=bool(a != b), lt=bool(a < b),
            hash=hash(a) == hash(b)))


def has_fix(ops, i):
    o = ops[i]
    return o['op'] == 'fix' or (o['op'] in ('add', 'mult') and (
        has_fix(ops, o['i'] - 1) or has_fix(ops, o['j'] - 1)))


def run_prog(sc, rng):
    m = Machine()
    for op in sc['leaves'] + sc['prog']:
        m.make(op)
        i = len(m.pool)
        if op['op'] == 'leaf':
            continue
        visit(m, i, rng, sc)
    # Models built early are what they were
    for i in range(2, len(m.pool)):
        if rng.random() < .5:
            visit(m, i, rng, sc)
        j = rng.randint(1, len(m.pool))
        m.order(i, j)
    m.order(len(m.pool), len(m.pool))
    return m.evs


def visit(m, i, rng, sc):
    value = sc.get('value', True)
    xmax = rng.choice([2, 6])
    for r in (0, 1):
        smp = samples(rng, rng.randint(1, 6), sc.get('d0', 18000),
                      sc.get('spread', 20), xmax)
        n = m.pool[i - 1].n_params
        if value and bound(m.ops, i - 1, xmax) > 10 ** 9:
            continue
        p = [rng.randint(-4, 4) for _ in range(n)] if value else \
            [rng.uniform(-3, 3) for _ in range(n)]
        m.eval(i, r, p, smp, value)
    if value:
        k = rng.choice([2, 6, 14])
        smp = [dict(s, x=s['x'] + rng.choice([0, 1]))
               for s in samples(rng, k, 18000, 10)]
        if not has_fix(m.ops, i - 1):
            m.valid(i, smp, [rng.randint(-1, 9) for _ in range(k)]
                    if rng.random() < .4 else [rng.randint(1, 9)] * k,
                    rng.random() < .85)
        m.guess(i, rng.randint(0, 1), smp)


def random_prog(rng, leaves, n_ops, fixes=.3, nmax=12):
    """Random operations over a pool that starts with the leaves."""
    npar = [nparams(lf) for lf in leaves]
    prog = []
    for _ in range(n_ops):
        k = len(npar)
        pick = lambda: rng.choice([rng.randint(1, k), k])  # noqa: E731
        op = rng.choice(['add', 'mult'])
        i, j = pick(), rng.randint(1, k)
        if rng.random() < fixes and npar[i - 1] > 0:
            v = [[rng.randint(-5, 9)] if rng.random() < .5 else []
                 for _ in range(npar[i - 1])]
            prog.append(dict(op='fix', i=i, j=0, v=v))
            npar.append(sum(1 for q in v if not q))
        else:
            if npar[i - 1] + npar[j - 1] > nmax:
                continue
            prog.append(dict(op=op, i=i, j=j, v=[]))
            npar.append(npar[i - 1] + npar[j - 1])
    return prog


def tlc_progs(ctx, n, want=None):
    res = []
    for s in ctx.sample([s for s in ctx.gen.get('MC_Model', [])
                         if want is None or want(s['prog'])], n):
        res.append(dict(kind='prog', leaves=START, prog=s['prog'],
                        seed=ctx.rng.randint(0, 10 ** 6)))
    return res


# ---------------------------------------------------------------- formulas

FORMULAS = ['null', 'constant', 'linear', 'linear_nondec', 'quasilinear',
            'exponential', 'decay', 'step', 'two_steps', 'spike',
            'spike_date', 'step_date', 'sigmoid', 'sigmoid_step', 'ramp',
            'season_wday', 'season_month', 'season_month_old',
            'season_fourier_yearly', 'season_wday_2', 'dummy_christmas',
            'dummy_month_start']
KIND = dict(linear_nondec='linear', sigmoid_step='sigmoid',
            season_month_old='season_month', season_wday_2='dummy',
            dummy_christmas='dummy', dummy_month_start='dummy')
DKIND = dict(season_wday_2='weekday<5', dummy_christmas='christmas',
             dummy_month_start='month_start')


def formula(name, rng):
    n = KIND.get(name, name)
    d0 = rng.choice([rng.randint(-3000, 30000), rng.randint(17000, 20500)])
    tod = name in ('spike_date', 'step_date') or rng.random() < .3
    k = rng.choice([1, 2, 5, 9, 14])
    xlo, xhi = -40, 400
    if n in ('exponential', 'decay'):
        xlo, xhi = 0, 5
    if n == 'quasilinear':
        xlo, xhi = 0, 20
    if n == 'sigmoid':
        xlo, xhi = -6, 6
    smp = samples(rng, k, d0, rng.choice([7, 60, 800]), 1, tod)
    if n.startswith('dummy') and rng.random() < .5:
        for s in smp:
            s['d'] = days(pd.Timestamp(rng.randint(1975, 2050), *rng.choice(
                [(12, 25), (12, 24), (12, 26), (11, 25), (1, 1), (1, 2),
                 (2, 28), (3, 1)])))
            s['t'] = s['d'] * DAY
    if n == 'season_fourier_yearly' and rng.random() < .3:
        for s in smp:   # notable points of the period
            s['d'] = rng.choice([0, 1461, 487, 974, -1461, 1, -1, 18628])
            s['t'] = s['d'] * DAY
    for s in smp:
        s['x'] = rng.randint(xlo, xhi)
    order = rng.choice(['any', 'sorted'])
    if order == 'sorted':
        smp.sort(key=lambda s: s['t'])
        for s, x in zip(smp, sorted(s['x'] for s in smp)):
            s['x'] = x
    v = []
    if n == 'spike_date':
        a = d0 + rng.randint(-3, 60)
        v = [a * DAY + rng.choice([0, 0, 720]),
             (a + rng.randint(1, 30)) * DAY + rng.choice([0, 540])]
    elif n == 'step_date':
        v = [(d0 + rng.randint(-3, 60)) * DAY + rng.choice([0, 540])]
    elif n == 'dummy':
        v = dict(kind=DKIND[name], l=[])
    r = rng.randint(0, 1)
    lf = L(n, v, name)
    m = real_leaf(lf)
    p = [rng.randint(-9, 9) for _ in range(m.n_params)]
    # Choose positions close to samples
    near = lambda: rng.choice(smp)['x'] + rng.choice([-1, 0, 0, 1])  # noqa
    real = None
    if n == 'quasilinear':
        p[1] = rng.randint(0, 4)
    elif n == 'exponential':
        p[1] = rng.randint(-4, 6)
    elif n == 'decay':
        p = [rng.randint(-900, 900) * 1024, rng.randint(0, 2),
             rng.randint(-99, 99)]
        real = [p[0], -p[1] * np.log(2), p[2]]
    elif n in ('step', 'ramp'):
        p[0] = near()
    elif n == 'two_steps':
        p[0], p[2] = near(), near()
    elif n == 'spike':
        p[1] = near()
        p[2] = p[1] + rng.randint(0, 9)
    elif n == 'sigmoid':
        p = [rng.randint(-40, 40), rng.randint(-5, 5), rng.randint(-1, 1)]
        real = [p[0], p[1], p[2] * np.log(2)]
    elif n == 'season_fourier_yearly':
        z = rng.choice([1, 1, 2, 5])
        p = [0] * 20
        for q in rng.sample(range(20), z):
            p[q] = rng.choice([1, 1, -1, 2, 3])
    x, d = arrays(smp)
    out = m(x, d, np.array(p if real is None else real, float), bool(r))
    if n == 'null':
        out = np.broadcast_to(out, len(smp))
    f = (lambda q: fix(q, 10000)) if n in (
        'sigmoid', 'season_fourier_yearly') else num
    return dict(ev='Formula', n=n, v=v, r=r, p=p, s=smp,
                out=[f(q) for q in np.atleast_1d(np.asarray(out, float))])


# ---------------------------------------------------------------- masks

def easter(y):
    from dateutil.easter import easter as e
    return days(pd.Timestamp(e(y)))


def mask_event(sc):
    import random
    rng = random.Random(sc['seed'])
    what = sc['what']
    years = [rng.randint(1980, 2060) for _ in range(rng.choice([1, 1, 3]))]
    ds = set()
    for y in years:
        for mo, da in ((1, 1), (1, 6), (1, 18), (2, 18), (4, 25), (5, 1),
                       (5, 3), (5, 28), (6, 2), (6, 19), (7, 4), (8, 15),
                       (8, 28), (9, 4), (10, 10), (11, 1), (11, 11),
                       (11, 25), (12, 8), (12, 25), (12, 27), (12, 31)):
            if rng.random() < .35:
                b = days(pd.Timestamp(y, mo, da))
                ds |= {b + k for k in range(-4, 5) if rng.random() < .5}
        if rng.random() < .7:
            b = easter(y)
            ds |= {b + k for k in range(-3, 3)}
    if rng.random() < .3 or not ds:
        b = days(pd.Timestamp(rng.choice(years), rng.randint(1, 12), 1))
        ds |= set(range(b, b + rng.randint(1, 40)))
    ds = sorted(ds)
    if rng.random() < .3:
        ds = rng.sample(ds, rng.randint(1, min(4, len(ds))))
    ds = ds[:70]
    order = rng.choice(['sorted', 'shuffled', 'reversed', 'dup'])
    if order == 'shuffled':
        rng.shuffle(ds)
    elif order == 'reversed':
        ds = ds[::-1]
    elif order == 'dup':
        ds = ds + ds[:5]
    x0 = min(ds)
    smp = [dict(x=(d - x0) % 1000, d=d, t=d * DAY) for d in ds]
    r = rng.randint(0, 1)
    if what.startswith('calendar'):
        lf = L('calendar', what, what)
    elif what == 'x':
        xs = rng.sample([s['x'] for s in smp], min(3, len(smp)))
        lf = L('dummy', dict(kind='x', l=xs + [7777], float=rng.random() < .5
                             ), 'dx')
    elif what == 't':
        lf = L('dummy', dict(
            kind='t', how=rng.choice(['ts', 'str', 'index', 'series', 'py']),
            l=[rng.choice(smp)['t'] for _ in range(rng.randint(1, 5))] +
            [(x0 - 9) * DAY]), 'dt')
    elif what == 'holiday':
        lf = L('dummy', dict(kind='holiday', l=[rng.randint(1, 12), rng.choice(
            [1, 8, 15, 25, 28])]), 'dh')
    elif what == 'dummies':
        lf = L('dummies', [dict(
            kind='t', how=rng.choice(['ts', 'str', 'index', 'series']),
            l=[rng.choice(smp)['t'] for _ in range(rng.randint(1, 5))])
            for _ in range(rng.randint(1, 4))], 'dl')
    else:
        lf = DUMMY[['weekday<5', 'christmas', 'month_start'].index(what)]
    m = real_leaf(lf)
    p = [rng.choice([-7, -3, 2, 5, 11]) for _ in range(m.n_params)]
    x, d = arrays(smp)
    kw = m.init_cache(x, d) if rng.random() < .4 else {}
    how = rng.choice(['alone', 'add', 'mult']) if sc.get(
        'composed', True) else 'alone'
    if how == 'alone':
        out = m(x, d, np.array(p, float), bool(r), **kw)
    else:   # composed with a constant: also decides the role
        one = ForecastModel('unit', 0, lambda a_x, a_date, params,
                            is_mult=False, **k: np.full(
                                len(a_x), 1.0 if is_mult else 0.0))
        comp = (m + one) if how == 'add' else (m * one)
        r = int(how == 'mult')
        kw = comp.init_cache(x, d) if kw else {}
        out = comp(x, d, np.array(p, float), bool(rng.randint(0, 1)), **kw)
    return dict(ev='Mask', n=lf['n'], v=lf['v'], r=r, p=p, s=smp,
                np=int(m.n_params), out=[num(q) for q in out])


# ---------------------------------------------------------------- fits

def g(v):
    return '%.9g' % float(v)


def fit_pair(sc):
    import random
    rng = random.Random(sc['seed'])
    leaves, d0 = lib_leaves(rng)
    n = rng.choice([20, 40, 80])
    step = rng.choice([1, 1, 2])
    t = [(d0 + i * step) * DAY for i in range(n)]
    y = [50 + .3 * i + 5 * ((i * 7) % 5) + rng.uniform(-2, 2)
         for i in range(n)]
    df = frame([dict(t=a, y=b, x=0, w=1) for a, b in zip(t, y)],
               ('date', 'y'))
    if rng.random() < .4:
        df['weight'] = [rng.choice([0, 1, 2]) for _ in range(n)]
    pick = [lf for lf in leaves if nparams(lf) <= 8]
    m = None
    for lf in rng.sample(pick, rng.choice([1, 2, 3])):
        k = real_leaf(lf)
        m = k if m is None else (m + k if rng.random() < .7 else m * k)
    res = []
    for use in (True, False):
        np.random.seed(sc['seed'])
        r = fc.run_forecast(df, l_model_trend=[m], l_model_season=[],
                            l_model_naive=[], extrapolate_years=.1,
                            include_all_fits=True, simplify_output=False,
                            use_cache=use)
        md, da = r['metadata'], r['data']
        res.append(repr([md.model.tolist(), md.status.tolist(),
                         [g(v) for v in md.cost], [g(v) for v in md.aic_c],
                         [[g(v) for v in np.atleast_1d(p)]
                          for p in md.params],
                         [g(v) for v in da.y]]))
    return dict(ev='FitPair', a=h(res[0]), b=h(res[1]), txt=res[0][:300])


def fix_fit(sc):
    """Models some of whose parameters have coinciding bounds."""
    import random
    rng = random.Random(sc['seed'])
    d0 = rng.randint(17000, 20000)
    n = rng.choice([30, 45, 64])
    case = sc['case']
    val = {}

    def leaf(n_, nm, full, fixed, v=()):
        val[nm] = full
        return L(n_, v, nm, bounds=[[q] if f else []
                                    for q, f in zip(full, fixed)])
    lin = [rng.choice([-3, 2, 4]), rng.randint(50, 90)]
    wd = [rng.randint(-20, 20) for _ in range(6)]
    k = rng.randint(1, 5)
    fx = lambda m: rng.sample([1] * m + [0] * (len(wd) - m), 6)  # noqa
    if case == 'linear':
        f = rng.choice([[1, 0], [0, 1], [1, 1]])
        ops = [leaf('linear', 'lin_b', lin, f)]
    elif case == 'wday':
        ops = [leaf('season_wday', 'wd_b', wd, fx(rng.randint(1, 6)))]
    elif case == 'lin+wday':
        f = rng.choice([[1, 0], [0, 1], [1, 1], [0, 0]])
        h = fx(k)
        a = leaf('linear', 'lin_b', lin, f)
        b = leaf('season_wday', 'wd_b', wd, h)
        ops = rng.choice([[a, b], [b, a]]) + [dict(op='add', i=1, j=2, v=[])]
    elif case == 'lin*wday':
        lin[0] = rng.choice([2, 4])
        wd = [rng.randint(1, 4) for _ in range(6)]
        a = leaf('linear', 'lin_b', lin, [1, 1])
        b = leaf('season_wday', 'wd_b', wd, fx(k))
        ops = rng.choice([[a, b], [b, a]]) + [
            dict(op='mult', i=1, j=2, v=[])]
    else:   # step or spike date and constant
        c = [rng.randint(-50, 50)]
        a = leaf('constant', 'const_b', c, [0])
        b = leaf('linear', 'lin_b', lin, [1, 1])
        d = leaf('season_wday', 'wd_b', wd, fx(k))
        ops = [a, b, d, dict(op='add', i=2, j=1, v=[]),
               dict(op='add', i=4, j=3, v=[])]
        if rng.random() < .5:
            ops = [a, b, d, dict(op='add', i=3, j=2, v=[]),
                   dict(op='add', i=1, j=4, v=[])]
    m = Machine()
    for o in ops:
        m.make(o)
    model = m.pool[-1]

    def flat(i):
        o = ops[i - 1]
        if o['op'] == 'leaf':
            return list(zip(val[o['nm']], o['bounds']))
        return flat(o['i']) + flat(o['j'])
    full = flat(len(ops))
    t = [(d0 + i) * DAY for i in range(n)]
    x = monday_x(t)
    y = model(np.array(x, float), pd.DatetimeIndex([ts(q) for q in t]),
              np.array([q for q, _ in full], float))
    if all(b for _, b in full):     # nothing is fitted: any data will do
        y = y + np.array([rng.randint(-5, 5) for _ in range(n)])
    df = pd.DataFrame(dict(date=[ts(q) for q in t], y=y))
    others = rng.choice([[], [fm.model_constant]])
    r = fc.run_forecast(df, l_model_trend=[model] + others,
                        l_model_season=[], l_model_naive=[],
                        extrapolate_years=rng.choice([0, .05]),
                        include_all_fits=True, simplify_output=False)
    md, da = r['metadata'], r['data']
    md = md.loc[md.model != 'constant']
    assert len(md) == 1
    da = da.loc[~da.is_actuals & (da.model == md.model.iloc[0])]
    tt = [minutes(q) for q in da.date]
    ev = dict(ev='FixFit', m=len(ops), v=[b for _, b in full],
              want=[q for q, b in full if not b],
              p=[num(q, tol=2e-4) for q in np.atleast_1d(md.params.iloc[0])],
              out=[num(q, tol=2e-4) for q in da.y],
              s=[dict(t=q, d=q // DAY, x=x[0] + (q - t[0]) // DAY)
                 for q in tt])
    return m.evs + [ev]


def drive(sc):
    import random
    rng = random.Random(sc['seed'])
    np.random.seed(sc['seed'] % (2 ** 31))
    k = sc['kind']
    if k == 'prog':
        return run_prog(sc, rng)
    if k == 'formula':
        return [formula(sc['name'], rng) for _ in range(sc.get('n', 6))]
    if k == 'mask':
        return [mask_event(dict(sc, seed=sc['seed'] + i))
                for i in range(sc.get('n', 3))]
    if k == 'fitpair':
        return [fit_pair(sc)]
    if k == 'fixfit':
        return fix_fit(sc)
    raise ValueError(k)
