"""C06: candidate models."""
from anticipy import forecast as fc
from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

OWNS = ('cand',)
MC = [dict(module='MC_Candidates', thorough_cfg='MC_Candidates_thorough.cfg',
           coverage=False)] + pc.MC
ASSUMPTIONS = ['series in the domain of C11 and C12']
SELF_TEST = 12
H = DAY // 2


def terms_of(o):
    return None if not o else [conv(t) for t in o[0]]


def conv(t):
    """A term of the model checker, with models of the library"""
    if t['k'] != 'leaf':
        return compose(t['k'], conv(t['c'][0]), conv(t['c'][1]))
    if t['nm'] in ('null', 'linear'):
        return dict(NULL=NULL, LINEAR=LINEAR)[t['nm'].upper()]
    return PR('q' + t['nm'], 0, a=1)


def sparse(rng, span, spacing, extra):
    """Few weighted samples with the given span and spacing, plus ignored
    ones (extra) outside."""
    t0 = rng.randint(15000, 19000) * DAY
    ts_ = sorted({t0, t0 + spacing, t0 + span} if spacing else {t0})
    rows = [dict(s=1, t=t, y=rng.choice([None, 3, 5]), w=rng.choice([1, 2]))
            for t in ts_]
    if extra and spacing:
        # ignored samples would make the series longer or denser
        k = max(spacing, 60)
        far = [ts_[0] - 10 * k, ts_[-1] + 200 * DAY // k * k + k,
               ts_[0] + spacing // 2, ts_[-1] + 700 * DAY // k * k]
        for t in rng.sample(far, rng.randint(1, 2)):
            rows.append(dict(s=1, t=t, y=4, w=rng.choice([0, 0, None, -1])))
        rows.sort(key=lambda r: r['t'])
    return rows


def scenarios(ctx):
    rng = ctx.rng
    res = []
    gen = ctx.gen.get('MC_Candidates', [])
    for g in ctx.sample(gen, ctx.pick(500, 5000)):
        c = g['cfg']
        # span of exactly that length, and with that spacing
        span, spacing = g['span'], g['spacing']
        if spacing == 60 and span > 60 * DAY and rng.random() < .8:
            continue
        if spacing and span < 2 * spacing and span != spacing:
            continue
        cfg = pc.CFG(*[terms_of(c[k]) for k in (
            'trend', 'season', 'weekly', 'yearly')], naive=rng.choice(
                [None, None, [], [NAIVE]]),
            cal=terms_of(c['cal']), mode=rng.choice(
                [g['op'], g['op'], 'both']))
        if spacing in (DAY + 60, 92 * DAY, 93 * DAY) or not any(
                o and o[0] or k in ('trend', 'naive') and not o
                for k, o in cfg.items() if k != 'mode'):
            kind = 'lists'
        else:
            kind = 'run'
        res.append(dict(kind=kind, rows=sparse(
            rng, span, spacing, kind == 'run' and rng.random() < .3),
            dated=True, weighted=True, sourced=False, start=None, p=1, q=730,
            all=True, step=spacing, cfg=cfg, op=g['op'], span=span,
            spacing=spacing, only='cand'))
    # thresholds, at any offset
    for i in range(ctx.pick(150, 1500)):
        th = rng.choice([10 * DAY + H, 365 * DAY, 547 * DAY + H, 730 * DAY])
        span = th + rng.choice([-60, 0, 60, -DAY, DAY])
        res.append(dict(kind='auto', t=sorted({
            0, span, rng.choice([60, DAY, DAY + 60, 7 * DAY, 92 * DAY,
                                 92 * DAY + 60])}), op=rng.choice(
                ['add', 'mult']), weekly=rng.choice([[], [[]], [['a']],
                                                     [['a', 'null']]]),
            yearly=rng.choice([[], [[]], [['b']], [['null', 'b', 'c']]]),
            base=rng.randint(15000, 19000)))
    # default lists on denser series, with a start date and numeric series
    while len(res) < ctx.pick(900, 9000):
        u = rng.random()
        if u < .6:
            sc = pc.gen_scenario(rng, rng.choice([1, 1, 2]))
            if rng.random() < .4:
                sc['cfg']['season'] = []
            if rng.random() < .4:
                sc['cfg']['trend'] = []
        else:
            # default models, too few samples to fit most of them
            n = rng.choice([8, 12, 20])
            step = rng.choice([DAY, DAY, 60, 'MS', 7 * DAY, 'QS'])
            rows = pc.gen_series(rng, 1, step, n, gap=0, unused=0)
            keep = rng.sample(range(2, n - 1), min(n - 3, 3))
            rows = [r for i, r in enumerate(rows) if i in (0, 1, n - 1) or
                    i in keep]
            p, q = pc.years(rng, step, 3)
            sc = dict(rows=rows, dated=True, weighted=True, sourced=False,
                      start=None, p=p, q=q, step=step, all=True,
                      cfg=pc.CFG(mode=rng.choice(['add', 'mult', 'both'])))
            if rng.random() < .5:
                sc['start'] = rows[1]['t']
            if rng.random() < .3:
                rows[-1]['w'] = 0
        if pc.in_domain(sc):
            res.append(dict(sc, kind='run'))
    return res


def auto_event(sc):
    base = sc['base'] * DAY
    dates = pd.Series([ts(base + t) for t in sc['t']])
    if len(dates) > 2:
        dates = dates.iloc[::-1]
    mk = lambda o: None if not o else [real(tm(n)) for n in o[0]]  # noqa: E731
    tm = lambda n: NULL if n == 'null' else PR(n, 0)  # noqa: E731
    from anticipy import forecast_models as fm
    lst = fm.get_l_model_auto_season(
        dates, season_add_mult=sc['op'], l_season_weekly=mk(sc['weekly']),
        l_season_yearly=mk(sc['yearly']))
    return dict(ev='Auto', t=sc['t'], op=sc['op'], weekly=[
        [tm(n) for n in o] for o in sc['weekly']], yearly=[
        [tm(n) for n in o] for o in sc['yearly']],
        out=[m.name for m in lst])


def list_events(sc):
    """The functions that generate candidates"""
    from anticipy import forecast_models as fm
    c = sc['cfg']
    t = [r['t'] for r in sc['rows']]
    dates = pd.Series([ts(v) for v in t])
    evs = []
    lst = fm.get_l_model_auto_season(
        dates, season_add_mult=sc['op'], l_season_weekly=terms(c['weekly']),
        l_season_yearly=terms(c['yearly']))
    evs.append(dict(ev='Auto', t=t, op=sc['op'], weekly=c['weekly'],
                    yearly=c['yearly'], out=[m.name for m in lst]))
    if c['trend'] and c['season'] and c['trend'][0] + c['season'][0]:
        lst = fc.get_list_model(terms(c['trend']), terms(c['season']),
                                c['mode'])
        evs.append(dict(ev='Lists', trend=c['trend'][0], op=c['mode'],
                        season=c['season'][0], out=[m.name for m in lst]))
    return evs


def drive(sc):
    if sc['kind'] == 'auto':
        return [auto_event(sc)]
    if sc['kind'] == 'lists':
        return list_events(sc)
    return [pc.run_event(sc, simple=False, only=sc.get('only', ''))]


def corrupt(tr, rng, sc):
    e = tr[-1]
    if e['ev'] in ('Auto', 'Lists'):
        how = rng.choice(['extra', 'lost', 'dup'])
        if how == 'extra':
            e['out'].append('linear')
        elif how == 'lost':
            e['out'].pop()
        else:
            e['out'].append(e['out'][0])
        return e['ev'] + how, tr
    if not e['all'] or not e['meta']:
        return None
    how = rng.choice(['lost', 'dup', 'name', 'am'])
    m = rng.choice(e['meta'])
    if how == 'lost':
        e['meta'].remove(m)
    elif how == 'dup':
        e['meta'].append(dict(m))
    elif how == 'name':
        m['nm'] += 'x'
    else:
        if e['cfg']['mode'] == 'both':
            return None
        m['am'] = 'mult' if m['am'] == 'add' else 'add'
    return how, tr
