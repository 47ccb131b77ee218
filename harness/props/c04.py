"""C04: ignored samples have no influence."""
import copy

from anticipy import forecast as fc
from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

OWNS = ('ign', 'out: actuals')
ASSUMPTIONS = ['series in the domain of C11 and C12',
               'outlier detection off (C19)']
SELF_TEST = 12


def variant(rng, sc):
    """An equivalent input: ignored samples replaced or removed; or None."""
    rows = copy.deepcopy(sc['rows'])
    how = rng.choice(['replace', 'replace', 'remove'])
    start = sc['start']

    def kind(r):
        w = 1 if not sc['weighted'] else (r['w'] or 0)
        if start is not None and r['t'] < start:
            return 'early'
        return 'off' if w <= 0 else 'null' if r['y'] is None else 'used'
    changed = False
    if how == 'replace':
        for r in rows:
            k = kind(r)
            if k == 'used' or rng.random() < .3:
                continue
            changed = True
            if k in ('early', 'off'):
                r['y'] = rng.choice([None, 0, 5, -700, 1000])
            if k == 'early':
                r['w'] = rng.choice([None, 0, 1, 9])
            elif k == 'off':
                r['w'] = rng.choice([None, 0, 0, -1, -3])
            elif sc['weighted']:
                r['w'] = rng.choice([1, 2, 7])
    else:
        # the last row of a source sets the horizon, the first one x
        out, last = [], {}
        for r in rows:
            last[r['s']] = max(last.get(r['s'], r['t']), r['t'])
        seen = set()
        for r in rows:
            first = r['s'] not in seen
            seen.add(r['s'])
            k = kind(r)
            if k in ('early', 'off') and not first and \
                    r['t'] != last[r['s']] and rng.random() < .6:
                changed = True
            else:
                out.append(r)
        rows = out
        if any(len({r['t'] for r in rows if r['s'] == s}) !=
               len([r for r in rows if r['s'] == s])
               for s in {r['s'] for r in rows}):
            return None
        if not pc.in_domain(dict(sc, rows=rows)):
            return None
        # the sampling frequency has to stay
        for s in {r['s'] for r in rows}:
            d = [sorted({r['t'] for r in q if r['s'] == s})
                 for q in (rows, sc['rows'])]
            m = [min([b - a for a, b in zip(x, x[1:])], default=0)
                 for x in d]
            if m[0] != m[1] or len(d[0]) < 2:
                return None
    return rows if changed else None


def scenarios(ctx):
    res = []
    rng = ctx.rng
    base = pc.from_tlc(ctx, ctx.pick(200, 2000))
    want = ctx.pick(420, 4500)
    while len(res) < want:
        if base:
            sc = base.pop()
        else:
            sc = pc.gen_scenario(rng, rng.choice([1, 1, 2]),
                                 lib=rng.random() < .2,
                                 nmax=rng.choice([14, 30, 90]))
            if rng.random() < .2:
                sc['cfg']['mode'] = 'auto'
            if not pc.in_domain(sc):
                continue
        v = variant(rng, sc)
        if v is None and rng.random() < .85:
            continue
        res.append(dict(sc, variant=v))
    for i in range(ctx.pick(40, 400)):
        # default trend and seasonality, automatic composition
        n = rng.choice([70, 90, 120, 200])
        rows = pc.gen_series(rng, 1, DAY, n, gap=0, unused=.1)
        for j, r in enumerate(rows):
            if r['y'] is not None:
                # the deviation follows the level, or not
                lev = 100 * (1 + j // 30)
                r['y'] = lev + rng.randint(-40, 40) * (
                    lev // 100 if i % 4 else 1)
        sc = dict(rows=rows, dated=True, weighted=True, sourced=False,
                  start=None, p=1, q=20, step=DAY, all=True,
                  cfg=pc.CFG(trend=[pc.T('linear')],
                             season=[pc.NULL, pc.PR('q1', 0, a=2, w=1)],
                             mode='auto', naive=[]))
        v = variant(rng, sc)
        if v:
            res.append(dict(sc, variant=v))
    return res


def fit_event(sc, s, np_):
    """fit_model on the rows of one source"""
    rows = [dict(r) for r in sc['rows'] if r['s'] == s]
    pc.add_x(sc, rows)
    model = pc.real(pc.PR('seen1', np_))
    pc._SINK.clear()
    df = pc.table(dict(sc, sourced=False), rows)
    if 'x' not in df:
        df['x'] = [r['x'] for r in rows]
    fc.fit_model(model, df, freq='D', source='x')
    calls = list(pc._SINK)
    seen = []
    if calls:
        _, x, y, d = calls[0]
        t = [minutes(v) for v in d] if d is not None else [num(v) for v in x]
        seen = [[num(a), num(b), c] for a, b, c in zip(x, y, t)]
    return dict(ev='Fit', rows=pc.enc_rows(dict(sc, sourced=False), rows),
                np=np_, called=len(calls) == 1, seen=seen)


def drive(sc):
    rows = [dict(r) for r in sc['rows']]
    pc.add_x(sc, rows)
    ra = pc.call(sc, pc.table(sc, rows))
    out = []
    if sc['cfg']['mode'] != 'auto':
        out.append(pc.run_event(sc, simple=False))
    S = sorted({r['s'] for r in sc['rows']}) if sc['sourced'] else [1]
    if sc['variant'] is not None:
        vrows = [dict(r) for r in sc['variant']]
        pc.add_x(sc, vrows)
        rb = pc.call(sc, pc.table(sc, vrows), seed=3)
        for s in S:
            out.append(dict(
                ev='Pair', pre='ign: ', a=pc.side(sc, sc['rows'], s),
                b=pc.side(sc, sc['variant'], s),
                ra=pc.digest(sc, ra, s), rb=pc.digest(sc, rb, s), tol=0))
    n = len(sc['rows'])
    for s in S:
        out.append(fit_event(sc if sc['sourced'] else dict(
            sc, rows=[dict(r, s=1) for r in sc['rows']]), s,
            (n * 7 + s) % 5))
    return out


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    if e['ev'] == 'Run':
        a = [d for d in e['data'] if d['act']]
        if not a:
            return None
        e['data'].remove(rng.choice(a))
        return 'actual lost', tr
    if e['ev'] == 'Fit':
        if not e['seen']:
            return None
        e['seen'].pop()
        return 'sample not used', tr
    if not e['ra']:
        return None
    rng.choice(e['ra'])['v'] += 1
    return 'pair', tr
