"""C18: prediction intervals."""
from anticipy import forecast as fc

from lib import *  # noqa: F401,F403
from lib import DAY, fix, np, num, opt, pd, ts
from props import pipe_common as pc

MC = [dict(module='MC_Interval', thorough_cfg='MC_Interval_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Interval'
OWNS = None
ASSUMPTIONS = [
    'forecast rows are listed in the order of their dates',
    'residuals are integers; sampled quantiles are compared with the exact '
    'distribution within the Dvoretzky-Kiefer-Wolfowitz bound (error '
    'probability < 10^-10 per comparison)',
    'distributions of more than about 10^6 outcomes are only checked for '
    'their bounds']
SELF_TEST = 14
U = 10000
DAYS = dict(Y=365, Q=91, M=30, W=7, D=1)


def from_tlc(ctx, n):
    res = []
    for g in ctx.sample(ctx.gen['MC_Interval'], n):
        # the same dates shifted, with or without the optional columns
        rng = ctx.rng
        d = rng.randint(-3000, 3000) * DAY
        rows = [dict(s=1, t=r['t'] + d, y=r['y'][0] if r['y'] else None,
                     w=r['w'][0] if r['w'] else None, act=r['act'],
                     best=r['best'], nm=r['nm']) for r in g['R']]
        weighted = rng.random() < .8
        if not weighted:
            for r in rows:
                r['w'] = 1
        res.append(dict(
            kind='pi', rows=rows, dated=True, weighted=weighted,
            sourced=rng.random() < .7, best=rng.random() < .7,
            p=rng.choice([[5, 20], [5, 20], [10, 45], [1, 50], [80, 30]]),
            days=g['days'], by_freq='n_cum', sims=10000, form=form(rng)))
    return res


def form(rng):
    return dict(index=rng.random() < .3, extra=rng.random() < .3,
                names=rng.choice([['a', 'b', 'c'], ['z', 'k', 'b']]))


def gen_table(rng, nsrc, dated, step, weighted, best, nmax, hmax):
    rows = []
    for s in range(1, nsrc + 1):
        n, h = rng.randint(1, nmax), rng.randint(0, hmax)
        d0 = rng.randint(14000, 19000)
        if not dated:
            pts = [d0 % 90 - 40 + i for i in range(n + h)]
        elif isinstance(step, str):
            pts = pc.points(step, n + h, d0)
        else:
            pts = [d0 * DAY + i * step for i in range(n + h)]
        spread = rng.choice([0, 1, 3, 10, 20])
        bias = rng.randint(-8, 8)
        acts, fcs = [], []
        for i, t in enumerate(pts):
            v = rng.randint(-30, 30)
            if rng.random() < .93 or i in (n - 1, n):
                fcs.append(dict(s=s, t=t, y=None if rng.random() < .06 else v,
                                w=1, act=False, best=True, nm='m'))
                if best and rng.random() < .3:
                    fcs.append(dict(s=s, t=t, y=rng.randint(-30, 30), w=1,
                                    act=False, best=False, nm='other'))
            if i < n and rng.random() < .93:
                a = dict(s=s, t=t, y=v + bias + rng.randint(-spread, spread),
                         w=1, act=True, best=rng.random() < .5,
                         nm='actuals')
                u = rng.random()
                if u < .12:
                    a['y'] = None
                elif u < .3 and weighted:
                    a.update(y=500, w=rng.choice([0, 0, None, -1]))
                elif weighted:
                    a['w'] = rng.choice([1, 2, 9])
                acts.append(a)
                if rng.random() < .08:
                    acts.append(dict(a, y=v + rng.randint(-spread, spread),
                                     w=rng.choice([1, 0]) if weighted else 1))
        if not best:
            fcs = [r for r in fcs if r['best']]
        if rng.random() < .3:
            rng.shuffle(acts)
        rows += fcs + acts if rng.random() < .2 else acts + fcs
    return rows


def gen(rng, big=False):
    dated = rng.random() < .85
    step = rng.choice([DAY, DAY, 7 * DAY, 60, 'MS', 'M', 'QS', 'Q', 'YS'])
    nsrc = rng.choice([1, 1, 1, 2, 3])
    weighted, best = rng.random() < .7, rng.random() < .7
    nmax, hmax = (60, 130) if big else (rng.choice([3, 8, 8]), 12)
    sims = rng.choice([10000, 40000]) if not big else 3000
    rows = gen_table(rng, nsrc, dated, step, weighted, best, nmax,
                     hmax)
    by = rng.choice(['n_cum', 'freq', 'freq', 'default'])
    days = {'n_cum': rng.choice([1, 2, 3, 7, 30, 40, 91, 182, 365, 730]),
            'freq': rng.choice(list(DAYS.values())), 'default': 365}[by]
    if step == 60 and by == 'freq':
        days = rng.choice([1, 1, 7])
    return dict(kind='pi', rows=rows, dated=dated, weighted=weighted,
                best=best, sourced=nsrc > 1 or rng.random() < .7,
                p=rng.choice([[5, 20], [5, 20], [20, 5], [2, 40], [50, 10],
                              [90, 33], [25, 25]]), days=days,
                by_freq=by, sims=sims, form=form(rng))


#: spacing, period in days, future rows: the interval widens at least once
LONG = [(60, 1, 60), (60, 7, 200), (DAY, 7, 30), (DAY, 30, 70),
        (DAY, 91, 110), (7 * DAY, 365, 80), (7 * DAY, 91, 30),
        (7 * DAY, 30, 12), ('MS', 365, 30), ('M', 91, 10), ('QS', 365, 10),
        ('YS', 365, 4), (DAY, 365, 400)]


def gen_long(rng, step, days, h):
    """Few residuals, and rows on both sides of the places where the
    interval widens."""
    rows, d0 = [], rng.randint(14000, 18000)
    n = rng.choice([3, 4, 6])
    pts = pc.points(step, n + h, d0) if isinstance(step, str) else \
        [d0 * DAY + i * step for i in range(n + h)]
    res = [0, 0, rng.randint(3, 9)] * 2
    for i, t in enumerate(pts):
        rows.append(dict(s=1, t=t, y=i % 7, w=1, act=False, best=True,
                         nm='m'))
        if i < n:
            rows.append(dict(s=1, t=t, y=i % 7 + res[i], w=1, act=True,
                             best=False, nm='actuals'))
    return dict(kind='pi', rows=sorted(rows, key=lambda r: (not r['act'])),
                dated=True, weighted=False, best=False, sourced=True,
                p=rng.choice([[5, 20], [25, 40]]), days=days,
                by_freq='freq', sims=10000, form=form(rng))


def scenarios(ctx):
    rng = ctx.rng
    long = [gen_long(rng, *a) for a in LONG * ctx.pick(1, 8)]
    return long + _scenarios(ctx)


def _scenarios(ctx):
    rng = ctx.rng
    res = from_tlc(ctx, ctx.pick(250, 3000))
    while len(res) < ctx.pick(520, 7000):
        res.append(gen(rng))
    while len(res) < ctx.pick(560, 7600):
        res.append(gen(rng, big=True))
    while len(res) < ctx.pick(660, 9000):
        sc = gen(rng)
        how = rng.choice(['spoil', 'scale', 'shift'])
        if how == 'spoil' and not sc['weighted']:
            continue
        res.append(dict(sc, kind='same', how=how, sims=100,
                        c=rng.choice([2, 3, 10]) if how == 'scale'
                        else rng.randint(-50, 50)))
    while len(res) < ctx.pick(800, 10500):
        sc = pc.gen_scenario(rng, rng.choice([1, 1, 2, 3]))
        sc['cfg'] = dict(sc['cfg'], trend=[[pc.PR(
            'q0', 0, w=rng.randint(0, 3) if sc['dated'] else 0)]],
            season=[[]], weekly=[], yearly=[], cal=[[]],
            naive=rng.choice([[[]], [[pc.NAIVE]], [[pc.NAIVE]]]))
        sc['cfg']['mode'] = 'add'
        if pc.in_domain(sc):
            by = rng.choice(['n_cum', 'freq', 'default'])
            days = {'n_cum': rng.choice([1, 2, 7, 14, 60, 200]),
                    'freq': rng.choice(list(DAYS.values())),
                    'default': 365}[by]
            res.append(dict(kind='run', sc=sc, by_freq=by, days=days,
                            sims=100, dated=sc['dated'],
                            p=rng.choice([[5, 20], [10, 30], [40, 2]])))
    return res


def to_df(sc, rows):
    names = sc['form']['names']
    d = {}
    d['date'] = [ts(r['t']) if sc['dated'] else r['t'] for r in rows]
    if sc['sourced']:
        d['source'] = [names[r['s'] - 1] for r in rows]
    d['is_actuals'] = [r['act'] for r in rows]
    d['model'] = [r['nm'] for r in rows]
    d['y'] = np.array([np.nan if r['y'] is None else r['y'] for r in rows],
                      dtype=float)
    if sc['weighted']:
        d['weight'] = np.array([np.nan if r['w'] is None else r['w']
                                for r in rows], dtype=float)
    if sc['best']:
        d['is_best_fit'] = [r['best'] for r in rows]
    if sc['form']['extra']:
        d['extra'] = range(len(rows))
    df = pd.DataFrame(d)
    if sc['form']['index']:
        df.index = [5 * i % 3 for i in range(len(rows))]
    return df


def options(sc):
    if sc['by_freq'] == 'n_cum':
        return dict(n_cum=sc['days'])
    if sc['by_freq'] == 'default':
        return {}
    return dict(widening_freq={v: k for k, v in DAYS.items()}[sc['days']])


def qcols(p):
    return ['q%d' % q for q in (p[0], 100 - p[0], p[1], 100 - p[1])]


def enc_out(sc, df, names):
    """Rows of the result"""
    cols = qcols(sc['p'])
    out = []
    has = all(c in df.columns for c in cols)
    s = [names.index(v) + 1 for v in df.source] if 'source' in df.columns \
        else [1] * len(df)
    for i in range(len(df)):
        r = df.iloc[i]
        out.append(dict(
            s=s[i], t=minutes(r['date']) if sc['dated'] else num(r['date']),
            y=opt(r['y']), act=bool(r['is_actuals']), nm=r['model'],
            q=[opt(r[c] - r['y'] if not isnull(r['y']) else r[c],
                   lambda v: fix(v, U)) for c in cols] if has
            else [[], [], [], []]))
    return out, has


def pi_event(sc, df, res, rows, names, same):
    out, has = enc_out(sc, res, names)
    for r in rows:
        r['y'] = [] if r['y'] is None else [r['y']]
        r['w'] = [] if r['w'] is None else [r['w']]
    eps = {100: 360, 3000: 76, 10000: 41, 40000: 21}[sc['sims']]
    return dict(ev='Pi', rows=rows, dated=sc['dated'], out=out, p=sc['p'],
                cols=has, days=sc['days'], eps=eps, same=same)


def drive(sc):
    if sc['kind'] == 'run':
        return [drive_run(sc)]
    rows = [dict(r) for r in sc['rows']]
    if not sc['sourced']:
        for r in rows:
            r['s'] = 1
    if not sc['weighted']:
        for r in rows:
            r['w'] = 1
    if not sc['best']:
        for r in rows:
            r['best'] = True
    if sc['kind'] == 'same':
        return drive_same(sc, rows)
    df = to_df(sc, rows)
    keep = df.copy(deep=True)
    np.random.seed(len(rows))
    res = fc.get_pi(df, n_sims=sc['sims'], pi_q1=sc['p'][0],
                    pi_q2=sc['p'][1], **options(sc))
    return [pi_event(sc, df, res, rows, sc['form']['names'],
                     bool(df.equals(keep)))]


def drive_same(sc, rows):
    other = [dict(r) for r in rows]
    by = 1
    for r in other:
        if sc['how'] == 'spoil':
            if r['act'] and (r['w'] or 0) <= 0 and r['y'] is not None:
                r['y'] = -r['y'] + sc['c']
        elif r['y'] is not None:
            if sc['how'] == 'scale':
                r['y'] = r['y'] * sc['c']
                by = sc['c']
            elif r['act']:
                r['y'] += sc['c']
    sides = []
    for rs in (rows, other):
        np.random.seed(11)
        res = fc.get_pi(to_df(sc, rs), n_sims=sc['sims'], pi_q1=sc['p'][0],
                        pi_q2=sc['p'][1], **options(sc))
        out, _ = enc_out(sc, res, sc['form']['names'])
        sides.append([q for r in out for q in r['q']])
    return [dict(ev='Same', a=sides[0], b=sides[1], by=by)]


def drive_run(sc):
    s = sc['sc']
    pc.add_x(s, s['rows'])
    pc.note_params(s['cfg'])
    opts = options(sc)
    if 'widening_freq' in opts:
        opts['pi_widening_freq'] = opts.pop('widening_freq')
    r = pc.call(s, pc.table(s, s['rows']), pi_q1=sc['p'][0],
                pi_q2=sc['p'][1], **opts)
    names = s.get('names') or pc.NAMES
    if not s.get('sourced'):
        names = ['src']
    rows = [dict(s=names.index(v.source) + 1,
                 t=minutes(v.date) if s['dated'] else num(v.date),
                 y=None if isnull(v.y) else num(v.y),
                 w=None if isnull(v.weight) else num(v.weight),
                 act=bool(v.is_actuals), best=bool(v.is_best_fit),
                 nm=v.model) for v in r['data'].itertuples()]
    return pi_event(sc, None, r['forecast'], rows, names, True)


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['ev'] == 'Same':
        i = [k for k, v in enumerate(e['a']) if v]
        if not i:
            return None
        e['a'][rng.choice(i)][0] += 9000
        return 'same', tr
    rows = [r for r in e['out'] if not r['act'] and r['q'][0]]
    if not rows:
        if not e['out']:
            return None
        e['out'].pop()
        return 'row lost', tr
    r = rng.choice(rows)
    how = rng.choice(['order', 'beyond', 'null', 'y', 'actuals', 'narrow'])
    if how == 'order':
        if e['p'][0] == 50 or e['p'][1] == 50 or r['q'][0] == r['q'][1]:
            return None
        r['q'][0], r['q'][1] = r['q'][1], r['q'][0]
    elif how == 'beyond':
        r['q'][1][0] += 90000000
    elif how == 'null':
        r['q'][3] = []
    elif how == 'y':
        r['y'] = [77777]
    elif how == 'narrow':
        # all quantiles at the largest
        if e['eps'] > 50 or max(q[0] for q in r['q']) < 30000:
            return None
        m = max(q[0] for q in r['q']) + 20000
        r['q'] = [[m]] * 4
    else:
        a = [x for x in e['out'] if x['act']]
        a[0]['q'][0] = [3]
    return how, tr
