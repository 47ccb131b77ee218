"""C20: automatic choice of composition."""
from anticipy import model_utils as mu

from lib import *  # noqa: F401,F403
from lib import DAY, np, pd, ts
from props import pipe_common as pc

MC = [dict(module='MC_Mult', thorough_cfg='MC_Mult_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Mult'
OWNS = None
ASSUMPTIONS = [
    'series whose least squares line has integer coefficients and residuals '
    '(residual blocks d, -2d, d along equal steps, pairs d, -d of samples '
    'that share x), x integer',
    'correlations between 0.788 and 0.812, or with a practically constant '
    'mean or variance, are left open']
SELF_TEST = 10


def month(t):
    d = pd.Timestamp(ts(t))
    return 12 * d.year + d.month


def gen(rng, auto=False):
    """A line with residual blocks of month-dependent size"""
    dated = rng.random() < .93
    step = rng.choice([DAY, DAY, DAY, 7 * DAY, 2 * DAY]) if not auto \
        else rng.choice([DAY, DAY, 7 * DAY])
    n = rng.choice([30, 61, 62, 75, 90, 120, 200, 400]) if step < 7 * DAY \
        else rng.choice([8, 9, 10, 26, 60])
    if rng.random() < .1:
        n = rng.choice([3, 3, 4, 5, 8])
        step = rng.choice([DAY, 15 * DAY, 31 * DAY])
    d0 = rng.randint(15000, 18000)
    tod = rng.choice([0, 0, 600])
    pts = [(d0 * DAY + tod) + i * step for i in range(n)]
    if rng.random() < .5 and n > 20:
        # gaps, also of whole months
        a = rng.randint(2, n - 2)
        b = min(n - 2, a + rng.choice([1, 2, 10, 40]))
        pts = pts[:a] + pts[b:]
    own_x = rng.random() < .2 and not auto
    rows = [dict(s=1, t=t, x=i * 2 - 7 if own_x else 0, w=1)
            for i, t in enumerate(pts)]
    sc = dict(dated=True, with_x=own_x)
    pc.add_x(sc, rows)
    lo = min(r['x'] for r in rows)
    hi = max(r['x'] for r in rows)
    b = rng.choice([0, 1, 1, 2, -1, 3] if not auto else [1, 2, 3])
    a = rng.randint(30, 120) - min(b * lo, b * hi)
    lam = rng.choice([0, .3, .5, .6, .7, .8, .9, 1] if not auto else
                     [0, .9, 1, 1])
    amp = {}
    lv = {}
    for r in rows:
        lv.setdefault(month(r['t']), a + b * r['x'])
    top = max(lv.values())
    for m, v in lv.items():
        u = lam * v / top + (1 - lam) * rng.random()
        amp[m] = rng.choice([1, 1, 3]) * 12 * max(0, u) ** .5 \
            if rng.random() < .2 else 14 * max(0, u) ** .5
    res = [0] * len(rows)
    i = 0
    while i + 2 < len(rows):
        x = [r['x'] for r in rows[i:i + 3]]
        same = month(rows[i]['t']) == month(rows[i + 2]['t'])
        if x[1] - x[0] == x[2] - x[1] > 0 and (same or rng.random() < .3) \
                and rng.random() < .9:
            d = round(amp[month(rows[i]['t'])] * rng.choice([1, 1, -1]))
            if rng.random() < .25:
                # weights 1 2 1 (w^2 r: d, -2d, d)
                d = 2 * d
                rr, ww = [d, -d // 2, d], [1, 2, 1]
            else:
                rr, ww = [d, -2 * d, d], [rng.choice([1, 1, 1, 2, 3])] * 3
            for j in range(3):
                res[i + j] = rr[j]
                rows[i + j]['w'] = ww[j]
            i += 3
        else:
            i += 1
    for r, e in zip(rows, res):
        r['y'] = a + b * r['x'] + e
    weighted = rng.random() < .7
    if not weighted:
        # only blocks that need no weights
        if any(r['w'] != 1 for r in rows):
            weighted = True
    out = list(rows)
    regular = len({q - p for p, q in zip(pts, pts[1:])}) <= 1
    if rng.random() < .3 and (regular or not auto):
        # pairs of samples that share x
        for r in rng.sample(rows, min(len(rows), rng.randint(1, 10))):
            if res[rows.index(r)] != 0:
                continue
            d = rng.choice([1, 5, 20])
            out.append(dict(r, y=r['y'] + d))
            r['y'] -= d
    keep = None
    if weighted and rng.random() < .6:
        # ignored samples
        for r in rng.sample(rows, min(len(rows), rng.randint(1, 8))):
            v = rng.choice([None, -5, 0, 3000])
            out.append(dict(r, y=v, w=1 if v is None else
                            rng.choice([0, 0, None, -1]))
                       if rng.random() < .5 and (not auto or regular) else
                       extra(rng, pts, step, r, v, auto))
        if auto:
            keep = {}
            for r in out:
                keep.setdefault(r['t'], []).append(r)
    out.sort(key=lambda r: r['t'])
    if rng.random() < .08:
        r = rng.choice(out)
        if r['y'] is not None:
            r['y'] = rng.choice([0, -1])
    return dict(kind='mult', dated=dated, weighted=weighted, rows=out,
                line=[a, b], with_x=own_x, own_x=own_x,
                shuffle=rng.random() < .3 and own_x, index=rng.random() < .2,
                step=step)


def extra(rng, pts, step, r, v, auto):
    """An ignored sample before or after the series"""
    t = rng.choice([pts[0] - 5 * step, pts[-1] + 3 * step,
                    pts[-1] + 100 * step])
    return dict(r, t=t, x=r['x'] if r['x'] else 0, late=1, y=v,
                w=1 if v is None else rng.choice([0, None, -2]))


def scenarios(ctx):
    rng = ctx.rng
    res = []
    for g in ctx.sample(ctx.gen['MC_Mult'], ctx.pick(350, 4000)):
        rows = [dict(s=1, t=r['t'], x=r['x'],
                     y=r['y'][0] if r['y'] else None,
                     w=r['w'][0] if r['w'] else None) for r in g['R']]
        res.append(dict(kind='mult', dated=True, weighted=True, rows=rows,
                        line=g['line'], with_x=True, own_x=True,
                        shuffle=rng.random() < .3, index=False, step=0))
    while len(res) < ctx.pick(900, 10000):
        res.append(gen(rng))
    tries = 0
    while len(res) < ctx.pick(1060, 11500) and tries < 200000:
        tries += 1
        sc = auto(rng)
        if sc:
            res.append(sc)
    return res


def auto(rng):
    sc = gen(rng, auto=True)
    if not sc['rows'] or len(sc['rows']) > 150 or \
            sc['step'] not in (DAY, 7 * DAY):
        return None
    dated = sc['dated'] and sc['step'] != 2 * DAY
    step = sc['step'] if dated else 0
    rows = sc['rows']
    if not dated:
        if len({r['t'] for r in rows}) != len(rows):
            return None
        for i, r in enumerate(rows):
            r['t'] = i
    cfg = pc.CFG([pc.T('linear'), pc.PR('w1', 0, b=1)],
                 [pc.PR('w2', 0, a=1, b=0), pc.NULL],
                 naive=rng.choice([[], [pc.NAIVE]]), cal=[], mode='auto')
    full = dict(sc, kind='auto', rows=rows, dated=dated, sourced=False,
                start=None, p=1, q=100, step=step, cfg=cfg, all=True)
    if dated and rng.random() < .3:
        # samples before the start date
        t0 = rows[0]['t']
        full['start'] = t0
        for i in range(1, rng.randint(2, 6)):
            rows.insert(0, dict(s=1, t=t0 - i * step, w=1,
                                y=rng.choice([-9, 1, 400])))
    own = [r for r in rows if full['start'] is None or
           r['t'] >= full['start']]
    sets = [sorted(r['t'] for r in q) for q in (
        own, [r for r in own if (r['w'] or 0) > 0],
        [r for r in own if (r['w'] or 0) > 0 and r['y'] is not None])]
    if any(len(set(t)) < len(t) for t in sets) and any(
            len({q - p for p, q in zip(t, t[1:])} - {0}) > 1 for t in sets):
        return None
    pc.add_x(full, rows)
    # the line in terms of this x
    return full if pc.in_domain(full, small=False) and line_ok(full) else None


def line_ok(sc):
    a, b = sc['line']
    use = [r for r in sc['rows'] if r['y'] is not None and
           (r['w'] or 0) > 0 and (sc['start'] is None or
                                  r['t'] >= sc['start'])]
    if not sc['dated']:
        return True
    # x may be counted from an earlier Monday now
    x0 = {(r['t'] // DAY) - r['x'] for r in use}
    if len(x0) != 1:
        return False
    # find the offset from any sample with zero residual: the sum of
    # residuals of a block is zero, so use the average over all samples
    n = sum((r['w'] / mult(use, r)) ** 2 for r in use)
    if not n:
        return False
    m = sum((r['w'] / mult(use, r)) ** 2 * (r['y'] - b * r['x'])
            for r in use) / n
    sc['line'] = [round(m), b]
    return True


def mult(use, r):
    return sum(1 for q in use if q['x'] == r['x'])


def enc_rows(sc, rows):
    return [dict(t=r['t'], x=r['x'], y=[] if r['y'] is None else [r['y']],
                 w=([] if r['w'] is None else [r['w']]) if sc['weighted']
                 else [1]) for r in rows]


def drive(sc):
    if sc['kind'] == 'auto':
        return [drive_auto(sc)]
    rows = sc['rows']
    order = list(range(len(rows)))
    if sc['shuffle']:
        np.random.RandomState(len(rows)).shuffle(order)
    d = {}
    if sc['dated']:
        d['date'] = [ts(rows[i]['t']) for i in order]
    d['x'] = [rows[i]['x'] for i in order]
    d['y'] = np.array([np.nan if rows[i]['y'] is None else rows[i]['y']
                       for i in order], dtype=float)
    if sc['weighted']:
        d['weight'] = np.array([np.nan if rows[i]['w'] is None else
                                rows[i]['w'] for i in order], dtype=float)
    df = pd.DataFrame(d)
    if sc['index']:
        df.index = df.index[::-1]
    keep = df.copy(deep=True)
    out = mu.is_multiplicative(df)
    return [dict(ev='Mult', rows=enc_rows(sc, rows), dated=sc['dated'],
                 line=sc['line'], out='mult' if out else 'add',
                 same=bool(df.equals(keep)))]


def drive_auto(sc):
    rows = sc['rows']
    pc.note_params(sc['cfg'])
    df = pc.table(sc, rows)
    dig, rec = [], []
    for mode in ('auto', 'add', 'mult'):
        r = pc.call(sc, df, season_add_mult=mode)
        dig.append(pc.digest(sc, r, 1))
        if mode == 'auto':
            rec = sorted(set(str(v) for v in r['metadata'].add_mult))
    own = [r for r in rows if sc['start'] is None or r['t'] >= sc['start']]
    return dict(ev='Auto', rows=enc_rows(sc, own), dated=sc['dated'],
                line=sc['line'], auto=dig[0], adds=dig[1], mults=dig[2],
                rec=rec)


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['ev'] == 'Auto':
        if e['adds'] == e['mults']:
            return None
        e['auto'] = e['adds'] + e['mults']
        return 'auto', tr
    if e['out'] == 'mult':
        e['out'] = 'add'
        return 'add', tr
    if not e['dated']:
        e['out'] = 'mult'
        return 'undated', tr
    if rng.random() < .5 and e['rows'] and not any(
            r['y'] and r['y'][0] <= 0 for r in e['rows']):
        e['line'] = [e['line'][0] + 1, e['line'][1]]
        return None
    if any(r['y'] and r['w'] and r['w'][0] > 0 and r['y'][0] <= 0
           for r in e['rows']):
        e['out'] = 'mult'
        return 'positive', tr
    e['same'] = False
    return 'same', tr
