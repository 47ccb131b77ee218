"""C27: the tables of a forecast agree with each other."""
import re

from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

MC = [dict(module='MC_Report', thorough_cfg='MC_Report_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Report'
OWNS = None
ASSUMPTIONS = ['series in the domain of C11 and C12',
               'costs are compared with rounded values of the rows']
SELF_TEST = 12
BIG = 2 ** 31 - 2 ** 20


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for s in ctx.sample(ctx.gen['MC_Report'], ctx.pick(100, 1500)):
        # the samples of the specification, with models without parameters
        # and a line
        rows = [dict(r, y=(r['y'] or [None])[0], w=(r['w'] or [None])[0])
                for r in s['rows']]
        ts_ = sorted({r['t'] for r in rows})
        if len(ts_) < len(rows) and ts_[-1] - ts_[0] >= len(ts_) * DAY:
            continue        # repeated dates and gaps
        sc = dict(rows=rows, dated=True, weighted=True, sourced=False,
                  start=None, p=2, q=365, step=DAY, all=s['all'],
                  cfg=CFG([T('linear')] + [PR('p%d' % b, 0, b=b)
                                           for b in range(3)], [],
                          naive=[] if len(ts_) < len(rows) else [NAIVE]))
        if pc.in_domain(sc):
            res.append(sc)
    res.append(hourly_start())
    while len(res) < ctx.pick(420, 6000):
        sc = pc.gen_scenario(rng, rng.choice([1, 1, 2, 3]),
                             nmax=rng.choice([12, 30, 60]),
                             lib=rng.choice([False, True, 'ramp', 'all']))
        if rng.random() < .2:
            sc['cfg']['mode'] = 'auto'
        if not sc['dated']:
            # (x of the sigmoid is scaled)
            for k in ('trend', 'season', 'cal', 'naive'):
                sc['cfg'][k] = [[t for t in lst if not any(
                    lf['n'] == 'sigmoid' for lf in pc.leaves(t))]
                    for lst in sc['cfg'][k]]
            if not sc['cfg']['trend'][0]:
                sc['cfg']['trend'] = [[T('linear')]]
        if hourly_offset(sc):
            sc['known'] = 'hourly-start'
        if pc.in_domain(sc):
            res.append(sc)
    return res


def hourly_start():
    """The finding of known_findings.json"""
    t0 = 18267 * DAY
    return dict(rows=[dict(s=1, t=t0 + 60 * i, y=i // 12, w=1)
                      for i in range(60)],
                dated=True, weighted=False, sourced=False, start=t0 + 720,
                p=1, q=8760, step=60, all=True, known='hourly-start',
                cfg=CFG([T('linear')], [], naive=[]))


def hourly_offset(sc):
    """Hourly samples are used from another time of day on than that of the
    first sample of their source."""
    if sc['step'] != 60:
        return False
    for s in {r['s'] for r in sc['rows']}:
        R = [r for r in sc['rows'] if not sc['sourced'] or r['s'] == s]
        W = [r['t'] for r in R if (sc['start'] is None or
                                   r['t'] >= sc['start']) and
             ((r['w'] or 0) > 0 if sc['weighted'] else True)]
        if W and (min(W) - R[0]['t']) % DAY:
            return True
    return False


def lohi(txt):
    """'1' or 'lo-hi' as numbers"""
    if txt == '1':
        return 1, 1
    m = re.match(r'^(nan|-?[\d.]+)-(nan|-?[\d.]+)$', txt)
    if m is None:
        return 'bad', txt
    return num(float(m.group(1))), num(float(m.group(2)))


def xrange_of(sc, txt):
    a, b = txt.split('::')
    if sc['dated']:
        return [num(np.nan) if v in ('NaT', 'nan') else
                minutes(pd.Timestamp(v)) // DAY for v in (a, b)]
    return [num(float(v)) for v in (a, b)]


def drive(sc):
    rows = [dict(r) for r in sc['rows']]
    pc.add_x(sc, rows)
    pc.note_params(sc['cfg'])
    df = pc.table(sc, rows)
    res = pc.call(sc, df)
    md, op, d = res['metadata'], res['optimize_info'], res['data']
    used = [r for r in rows if r['y'] is not None and
            (r['w'] if sc['weighted'] else 1) and
            (r['w'] or 0 if sc['weighted'] else 1) > 0 and
            (sc['start'] is None or r['t'] >= sc['start'])]
    K = 1
    for r in used:
        m = len([u for u in used if (u['s'], u['x']) == (r['s'], r['x'])])
        K = int(np.lcm(K, m))
    if K > 12:
        K = 1
    meta, data = [], []
    for r in md.itertuples():
        s = pc.sid(sc, r.source)
        g = d.loc[(d.source == r.source) & (d.model == r.model) &
                  ~d.is_actuals]
        U = [u for u in used if u['s'] == s or not sc.get('sourced')]
        u, again = 0, None
        x = []
        if len(g) and U:
            t0, x0 = min(w['t'] for w in used if w in U), \
                min(w['x'] for w in U)
            # weighted rows start the forecast, values may be missing
            W = [w for w in rows if (w['s'] == s or not sc.get('sourced'))
                 and (sc['start'] is None or w['t'] >= sc['start']) and
                 ((w['w'] or 0) > 0 if sc['weighted'] else True)]
            t0, x0 = min(w['t'] for w in W), min(w['x'] for w in W)
            tt = [pc.dt(sc, v) for v in g.date]
            x = [x0 + (t - t0) // (DAY if sc['dated'] else 1) for t in tt]
            m = r.model_obj
            v = g.y.values.astype(float)
            if 'naive' in m.name:
                again = v
            else:
                again = m(np.array(x, float) / (
                    100. if m.name == 'sigmoid' else 1),
                    pd.DatetimeIndex(g.date) if sc['dated'] else None,
                    np.asarray(r.params, float))
                again = np.broadcast_to(np.asarray(again, float), v.shape)
            at = dict(zip(tt, v))
            big = max([abs((w['w'] if sc['weighted'] else 1) * K *
                           (w['y'] - at[w['t']])) + 6 * K
                       for w in U if w['t'] in at] or [1])
            top = max(np.abs(v).max(), np.abs(again).max(), 1)
            if np.isfinite(big) and np.isfinite(top):
                u = int(min(1000, np.sqrt(BIG / len(U)) / big / 1.1,
                            1e9 / top))
        data += [dict(s=s, nm=r.model, t=pc.dt(sc, a), x=xx,
                      v=fix(b, max(u, 1)), again=fix(c, max(u, 1)),
                      sl=pc.crc(e))
                 for a, b, c, e, xx in zip(
                     g.date, g.y, again if again is not None else g.y,
                     g.source_long, x or [0] * len(g))]
        lo, hi = lohi(r.weights)
        a, b = xrange_of(sc, r.actuals_x_range)
        meta.append(dict(
            s=s, nm=r.model, st=r.status, fit=bool(r.is_fit),
            cost=fix(r.cost, u * u) if u else 0, u=u, lo=lo, hi=hi,
            freq='' if isnull(r.freq) else r.freq, a=a, b=b,
            sl=pc.crc(r.source_long), best=bool(r.is_best_fit),
            pc=params_crc(r.params)))
    costs = {(r.source, r.model): r.cost for r in md.itertuples()}
    opt = []
    for r in op.itertuples():
        nm = getattr(r.model, 'name', r.model)
        c = costs.get((r.source, nm), r.cost)
        opt.append(dict(
            s=pc.sid(sc, r.source), nm=nm, ok=bool(r.success),
            same=bool(c == r.cost or (isnull(c) and isnull(r.cost))),
            sl=pc.crc(r.source_long),
            pc=params_crc([] if r.params is None or isinstance(r.params, str)
                else r.params)))
    act = [dict(s=pc.sid(sc, r.source), sl=pc.crc(r.source_long))
           for r in d.loc[d.is_actuals].itertuples()]
    out = [fit_event(sc, rows)]
    return out + [dict(ev='Rep', rows=pc.enc_rows(sc, rows), dated=sc['dated'],
                 weighted=sc['weighted'], all=sc.get('all', True),
                 start=[] if sc['start'] is None else [sc['start']],
                 cfg=sc['cfg'], K=K, meta=meta, opt=opt, data=data, act=act)]


def fit_event(sc, rows):
    """A direct call of fit_model with the samples of the first source"""
    own = [r for r in rows if r['s'] == rows[0]['s']] if sc['sourced'] \
        else rows
    df = fc.normalize_df(pc.table(dict(sc, sourced=False), own))
    f = 'QQ' if len(own) % 2 else 'W-SUN'
    m = fm.model_linear if len(own) % 3 else fm.model_null
    np.random.seed(3)
    d = fc.fit_model(m, df, freq=f, source='a:b')['metadata'].iloc[0]
    lo, hi = lohi(d.weights)
    a, b = xrange_of(sc, d.actuals_x_range)
    return dict(ev='Fit', rows=pc.enc_rows(dict(sc, sourced=False), own),
                weighted=sc['weighted'], dated=sc['dated'], lo=lo, hi=hi,
                a=a, b=b, freq=d.freq, given=f, src=d.source == 'a:b',
                long=bool(d.source_long == ':'.join(
                    ['a:b', d.weights, d.freq, d.actuals_x_range])))


def params_crc(p):
    return pc.crc([float(v) for v in p])


def corrupt(tr, rng, sc):
    e = tr[-1]
    how = rng.choice(['lost opt', 'ok', 'value', 'cost', 'weights', 'range',
                      'long'])
    fits = [d for d in e['meta'] if d['st'] == 'FIT' and d['u'] > 50 and
            any(x['nm'] == d['nm'] and x['s'] == d['s'] for x in e['data'])]
    if how == 'lost opt':
        e['opt'].pop()
    elif not e['meta']:
        return None
    elif how == 'ok':
        d = rng.choice(e['meta'])
        d['fit'] = not d['fit']
    elif how == 'weights':
        rng.choice(e['meta'])['hi'] = 77
    elif how == 'range':
        rng.choice(e['meta'])['b'] += 1
    elif not fits:
        return None
    else:
        d = rng.choice(fits)
        x = rng.choice([x for x in e['data'] if x['nm'] == d['nm'] and
                        x['s'] == d['s']])
        if how == 'value':
            x['again'] += 2
        elif how == 'cost':
            d['cost'] = d['cost'] * 2 + 20 * d['u'] * d['u']
        else:
            x['sl'] += 1
    return how, tr
