"""C22: series without noise are recovered and continued."""
import random

from anticipy import forecast as fc
from anticipy import forecast_models as fm
from anticipy.forecast_models import ForecastModel

from lib import *  # noqa: F401,F403
from lib import DAY, fix, minutes, np, num, pd, ts, years_ok
from props import models_common as mc
from props.fit_common import real_term

MC = [dict(module='MC_Recover', thorough_cfg='MC_Recover_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Fit'
OWNS = ['recover:']
ASSUMPTIONS = ['the actuals show every effect of the formula (every weekday '
               'twice, samples on both sides of a step, a holiday of every '
               'group)',
               'values of moderate size; compared at 1/1000 of their unit '
               'and of the largest value']
SELF_TEST = 10

CAL = {'lin+uk': fm.model_calendar_uk, 'lin+us': fm.model_calendar_us,
       'lin+ita': fm.model_calendar_ita,
       'lin+wday+uk': fm.model_calendar_uk}


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for g in ctx.sample(ctx.gen['MC_Recover'], ctx.pick(450, 6000)):
        for _ in range(ctx.pick(1, 2)):
            res.append(dict(g=g, seed=rng.randint(0, 10 ** 9)))
    return res


def leaves(t):
    return [t] if t['k'] == 'leaf' else sum(map(leaves, t['c']), [])


def config(g, rng, n):
    """Model lists that include the structure of the series"""
    fam, f = g['fam'], g['f']
    m = real_term(g['m'])
    lf = [mc.real_leaf(a) for a in leaves(g['m'])]
    lin, nul = fm.model_linear, fm.model_null
    kw = dict(l_model_naive=[])
    how = ['exact', 'exact', 'others']
    if fam == 'lin' or fam in ('lin+wday', 'lin*wday', 'wday') and (
            f == 'D' or f == 'H'):
        how += ['default', 'default']
    if fam in ('lin+wday', 'lin*wday', 'wday', 'lin+month', 'lin+workdays',
               'lin+monthstart', 'lin+dummy'):
        how += ['lists', 'lists']
    if fam in CAL:
        how += ['calendar', 'calendar', 'lists']
    if fam in ('lin+step', 'lin+spike', 'lin+step+wday'):
        how += ['lists', 'lists']
    if fam == 'lin+monthstart' and n < 62 or fam == 'lin+dummy' or \
            fam == 'lin+spike' and f != 'D':
        how = ['exact', 'others']     # a product fits a single effect as well
    h = rng.choice(how)
    mode = rng.choice(['add', 'both', 'mult'] if fam == 'lin' else
                      ['mult', 'both'] if fam == 'lin*wday' else
                      ['add', 'both'])
    kw = dict(season_add_mult=mode)
    if rng.random() < .5:
        kw['l_model_naive'] = []
    if h == 'exact':
        kw.update(l_model_trend=[m], l_model_season=[nul])
    elif h == 'others':
        ms = [lin, m]
        rng.shuffle(ms)
        kw.update(l_model_trend=ms, l_model_season=[nul])
    elif h == 'default':
        if n <= 14 and fam != 'lin' and f == 'D':    # span over 10.5 days
            kw['l_model_season'] = [nul, fm.model_season_wday]
    elif h == 'calendar':
        if fam == 'lin+wday+uk':
            kw['l_model_season'] = [fm.model_season_wday, nul]
        elif rng.random() < .6:
            kw['l_model_season'] = [nul]
        kw['l_model_calendar'] = [CAL[fam]]
        if rng.random() < .5:
            kw['l_model_calendar'].append(nul)
        kw['season_add_mult'] = 'add'
    else:
        t, s = lf[0], lf[1]
        if len(lf) == 3:
            t, s = lf[0] + lf[1], lf[2]
        ss, tt = [s], [t]
        if rng.random() < .6:
            ss.insert(rng.randint(0, 1), nul)
        if rng.random() < .4 and t is not lin:
            tt.insert(rng.randint(0, 1), lin)
        kw.update(l_model_trend=tt, l_model_season=ss)
    return kw, h


def drive(sc):
    g = sc['g']
    rng = random.Random(sc['seed'])
    f = g['f']
    t = [a for a, _ in g['s']]
    v = [b for _, b in g['s']]
    big = max(map(abs, v)) + 1
    dummy = any(a['n'] in ('dummy', 'calendar', 'season_month')
                for a in leaves(g['m']))
    u = rng.choice([1., 1., 1., .5, .01, 10., 100., 1000.] + (
        [] if dummy else [1e5]))
    kw, how = config(g, rng, len(t))
    if f == 'H':
        pp, pq = rng.choice([(1, 52), (1, 26)])
    elif f == 'D':
        pp, pq = rng.choice([(1, 12), (1, 4), (1, 2), (1, 1), (0, 1), (1, 26)])
    else:
        pp, pq = rng.choice([(1, 2), (1, 1), (2, 1), (1, 4), (0, 1)])
    un = {'H': 8760, 'D': 365, 'MS': 12, 'M': 12, '': 100}.get(f, 52)
    if not years_ok(pp, pq, un):
        pp, pq = 1, 1
    d = dict(y=np.array(v, float) * u)
    if f:
        d['date'] = [ts(a) for a in t]
    else:
        d['x'] = t
    df = pd.DataFrame(d)
    ev = []
    if rng.random() < .3:
        df['weight'] = [rng.choice([1., 2., .5]) for _ in t]
    if rng.random() < .3 and f == 'D' and g['fam'] != 'lin+dummy' or rng.random() < .3 and f[:1] == 'W':
        df = df.sample(frac=1, random_state=rng.randint(0, 999))
    if rng.random() < .3:
        df.index = range(5, 5 + len(df))
    src = rng.random() < .25
    if src:      # a second source of other values
        d2 = df.copy()
        d2['y'] = d2['y'].values[::-1] * 2 + 7 * u
        df['source'], d2['source'] = 's1', rng.choice(['s0', 's2'])
        df = pd.concat([df, d2], ignore_index=True) if rng.random() < .5 \
            else pd.concat([d2, df], ignore_index=True)
    ren = rng.random() < .2
    if ren:
        kw.update(col_name_y='val')
        df = df.rename(columns=dict(y='val'))
    full = rng.random() < .4
    np.random.seed(rng.randint(0, 10 ** 6))
    out = fc.run_forecast(df, extrapolate_years=pp / float(pq),
                          simplify_output=False,
                          include_all_fits=full, **kw)['data']
    if src:
        out = out.loc[out.source == 's1']
    col = 'val' if 'val' in out.columns else 'y'
    pos = 'date' if f else ('x' if 'x' in out.columns else 'date')
    enc = (lambda q: minutes(q)) if f else num
    act = out.loc[out.is_actuals]
    best = out.loc[out.is_best_fit & ~out.is_actuals]
    tol = 5 + big // 2
    ev.append(dict(
        ev='Recover', m=g['m'], p=g['p'], dated=bool(f), f=f, t0=t[0],
        t1=t[-1], pp=pp, pq=pq, g=[enc(q) for q in best[pos]], how=how,
        out=[fix(q / u, 1000) for q in best[col]],
        act=[[enc(a), fix(q / u, 1000)] for a, q in zip(act[pos], act[col])],
        tol=tol, snaive=bool((best.model == 'snaive_wday').any()), unit=u, cfg=str(sorted(kw)), src=src, n=len(t)))
    return ev


def corrupt(tr, rng, sc):
    e = tr[0]
    if not e['out']:
        return None
    how = rng.choice(['last', 'some', 'drop', 'act', 'horizon'])
    if how == 'last':
        e['out'][-1] += 2 * e['tol'] + 2
    elif how == 'some':
        e['out'][rng.randrange(len(e['out']))] -= 2 * e['tol'] + 2
    elif how == 'drop':
        e['out'].pop()
        e['g'].pop()
    elif how == 'act':
        e['act'][rng.randrange(len(e['act']))][1] += 5
    else:
        e['pp'] += e['pq']
    return how, tr


def coverage(scs, traces):
    c = {}
    for t in traces:
        k = t[0]['how']
        c[k] = c.get(k, 0) + 1
    return dict(modes=c, forecast_values=sum(len(t[0]['out'])
                                             for t in traces))
