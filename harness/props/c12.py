"""C12: gap filling."""
from anticipy.model_utils import interpolate_df

from lib import *
from props.c11 import FREQS, sparse

MC = [dict(module='MC_Axis')]
CONF = 'Conf_Axis'
OWNS = ('fill',)
ASSUMPTIONS = [
    'dates of calendar frequencies lie on month/quarter/year starts or ends',
    'a series has at least one pair of adjacent samples when its grid is to '
    'be its sampling grid (else the grid of its smallest spacing is filled)',
    'x and dates increase together; x of added rows is interpolated by '
    'position and truncated to the type of x']


def _y(rng, n):
    ys = walk(rng, n, -50, 50, rng.randint(-500, 500))
    if rng.random() < .4:
        ys = [None if rng.random() < .25 else v for v in ys]
    return ys


def scenarios(ctx):
    rng = ctx.rng
    res = []

    def add(t, x, dated, **k):
        res.append(dict(t=t, x=x, y=_y(rng, len(t)), dated=dated,
                        mask=rng.random() < .5, interp=rng.random() < .5,
                        order=0, src=rng.random() < .2, **k))

    for s in ctx.sample(ctx.gen.get('MC_Axis', []), ctx.pick(250, 1500)):
        t = s['have']
        if sparse(s['f'], t):
            continue
        add(t, monday_x(t), True)
    for _ in range(ctx.pick(350, 4000)):
        f = rng.choice(FREQS)
        n = rng.randint(2, 14)
        tod = rng.choice([0, 0, 630]) if f in ('H', 'D') or f[0] == 'W' \
            else 0
        pts = points(f, n, rng.randint(16000, 20500), tod)
        i = rng.randrange(n - 1)
        keep = [t for j, t in enumerate(pts)
                if j in (i, i + 1) or rng.random() < .6]
        if rng.random() < .25:    # repeated dates
            keep = sorted(keep + rng.sample(keep, rng.randint(1, len(keep))))
        x = monday_x(keep)
        if rng.random() < .2:
            x = [3 * v + 7 for v in x]
        add(keep, x, True)
    for _ in range(ctx.pick(150, 2000)):
        n = rng.randint(2, 14)
        x = [rng.randint(-10, 30)]
        for _ in range(n - 1):
            x.append(x[-1] + rng.choice([1, 1, 2, 3, 5]
                                        if rng.random() < .9 else [0, 1]))
        if rng.random() < .2:
            k = rng.randint(2, 4)
            x = [x[0] + k * i for i in range(n)]
        add(x, x, False)
    for t in KNOWN_OFFGRID:
        res.append(dict(t=t, x=monday_x(t), y=list(range(len(t))), dated=True,
                        mask=False, interp=False, order=0, src=False,
                        known='monthly-mid-month'))
    return res


# Monthly series sampled in the middle of the month (finding)
KNOWN_OFFGRID = [[minutes('2020-%02d-15' % m) for m in (1, 2, 3, 4, 5, 6)]]


def enc_rows(df, sc, scale=1):
    def y(v):
        return [] if isnull(v) else [num(v, scale=scale, tol=1) if scale > 1
                                     else num(v)]
    return [dict(t=minutes(r.date) if sc['dated'] else num(r.x), x=num(r.x),
                 y=y(r.y), m=[bool(r.is_gap_filled)]
                 if 'is_gap_filled' in df.columns and
                 not isnull(r.is_gap_filled) else [])
            for r in df.itertuples()]


def drive(sc):
    rows = [dict(t=t, x=x, y=y, w=1) for t, x, y in
            zip(sc['t'], sc['x'], sc['y'])]
    df = frame(rows, ('date', 'x', 'y') if sc['dated'] else ('x', 'y'))
    if sc['src']:
        df['source'] = 's1'
    before = df.copy()
    e = dict(ev='Fill', dated=sc['dated'], mask=sc['mask'],
             interp=sc['interp'],
             rows=[dict(t=r['t'], x=r['x'],
                        y=[] if r['y'] is None else [r['y']]) for r in rows])
    try:
        out = interpolate_df(df, include_mask=sc['mask'],
                             interpolate_y=sc['interp'])
    except ValueError as ex:
        # (pandas reports unconvertible nulls with a subclass of ValueError)
        return [dict(e, res=type(ex).__name__, out=[])]
    evs = [dict(e, res='rows', out=enc_rows(out, sc, 1000))]
    assert df.equals(before)
    if not df.date.duplicated().any() if sc['dated'] else \
            not df.x.duplicated().any():
        o1 = out.drop(columns='is_gap_filled', errors='ignore')
        o2 = interpolate_df(o1, interpolate_y=sc['interp'])
        cols = [c for c in ('date', 'x', 'y') if c in o1.columns]
        evs.append(dict(ev='Refill', same=bool(
            o1[cols].reset_index(drop=True).equals(
                o2[cols].reset_index(drop=True)))))
    return evs


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['res'] != 'rows':
        e['res'] = 'rows'
        e['out'] = [dict(r, m=[]) for r in e['rows']]
        return 'accepts repeated dates', tr
    o = e['out']
    added = len(o) > len(e['rows'])
    how = rng.choice(['drop', 'value', 'x', 'swap', 'mask', 'gapvalue'])
    if how == 'drop':
        del o[rng.randrange(len(o))]
    elif how == 'value':
        i = rng.randrange(len(o))
        o[i]['y'] = [] if o[i]['y'] else [5]
    elif how == 'x':
        o[rng.randrange(len(o))]['x'] += 2
    elif how == 'swap' and len(o) > 1:
        o[0], o[1] = o[1], o[0]
    elif how == 'mask' and added and e['mask']:
        i = rng.randrange(len(o))
        o[i]['m'] = [not o[i]['m'][0]]
    elif how == 'gapvalue' and added and e['interp']:
        have = {r['t'] for r in e['rows']}
        g = [r for r in o if r['t'] not in have and r['y']]
        if not g:
            return None
        rng.choice(g)['y'][0] += 3
    else:
        return None
    return how, tr


def coverage(scs, traces):
    return dict(filled=sum(1 for t in traces
                           if len(t[0].get('out', [])) >
                           len(t[0].get('rows', []))),
                rejected=sum(1 for t in traces
                             if t[0].get('res') == 'ValueError'))
