"""Drivers of C01, C02: descriptions of samples (spec/Norm.tla)."""
import datetime

from anticipy import forecast as fc
from lib import *  # noqa: F401,F403
from lib import DAY, day, minutes, np, num, opt, pd, ts

MC = [dict(module='MC_Norm', thorough_cfg='MC_Norm_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Norm'
ROLES = ('y', 'weight', 'x', 'date', 'source')
# names in an order that differs from first appearance
NAMES = ['Z', 'a b', 'b', 'm', 'z:1', '~']


def build(d, fmt):
    """The object described by d, and the arguments that name its columns.

    fmt: cols (role -> name), junk (unrelated columns), dtext ('ts', 'text',
    'long', 'date'), order (of columns), series, int, iname
    """
    rows = d['rows']
    data = {}
    nm = {r: r for r in ROLES}
    nm.update(fmt.get('cols', {}))
    y = [np.nan if not r['y'] else r['y'][0] for r in rows]
    data[nm['y']] = np.array(y, dtype=int) if fmt.get('int') and all(
        r['y'] for r in rows) else np.array(y, dtype=float)
    if 'weight' in d['cols']:
        w = [np.nan if not r['w'] else r['w'][0] for r in rows]
        data[nm['weight']] = np.array(w, dtype=float)
    if 'x' in d['cols']:
        data[nm['x']] = [r['x'] for r in rows]

    def dates(how):
        v = [ts(r['t']) for r in rows]
        if how == 'text':
            f = '%Y-%m-%d' if all(r['t'] % DAY == 0 for r in rows) else \
                '%Y-%m-%d %H:%M'
            return [a.strftime(f) for a in v]
        if how == 'long':
            return [a.strftime('%Y-%m-%dT%H:%M:%S') for a in v]
        if how == 'date' and all(r['t'] % DAY == 0 for r in rows):
            return [datetime.date(a.year, a.month, a.day) for a in v]
        if how == 'py':
            return [a.to_pydatetime() for a in v]
        return v
    if 'date' in d['cols']:
        v = dates(fmt.get('dtext', 'ts'))
        data[nm['date']] = pd.Series(
            v, dtype=object) if fmt.get('dtext') in (
                'text', 'long', 'date') else pd.to_datetime(pd.Series(v))
    if 'source' in d['cols']:
        data[nm['source']] = [d['names'][r['s'] - 1] for r in rows]
    for k, v in fmt.get('junk', {}).items():
        if k not in data:
            data[k] = v
    cols = sorted(data)
    if fmt.get('order'):
        cols = [c for _, c in sorted((hash_(c, fmt['order']), c)
                                     for c in cols)]
    if d['index'] == 'date':
        ix = pd.DatetimeIndex(dates('ts'), name=fmt.get('iname'))
    elif d['index'] == 'int':
        ix = pd.Index([r['i'] for r in rows], name=fmt.get('iname'),
                      dtype='int64')
    else:
        ix = pd.Index(['r%d' % (r['i'] % 7) for r in rows], dtype=object)
    df = pd.DataFrame({c: np.asarray(data[c]) if not isinstance(
        data[c], (str, int, float)) else data[c] for c in cols}, index=ix,
        columns=cols)
    kw = {'col_name_' + r: n for r, n in nm.items() if n != r}
    if fmt.get('series'):
        s = df[nm['y']]
        s.name = fmt.get('sname', nm['y'])
        return s, kw
    return df, kw


def hash_(c, k):
    import zlib
    return zlib.crc32((c + str(k)).encode())


def rank_names(d, used):
    """Ranks of the source names that are used"""
    return {n: i + 1 for i, n in enumerate(d['names'])}


def norm_event(d, fmt):
    obj, kw = build(d, fmt)
    if fmt.get('novalue'):
        obj = obj.drop(kw.get('col_name_y', 'y'), axis=1)
    keep = obj.copy(deep=True)
    res, out, cols = 'ok', [], []
    try:
        n = fc.normalize_df(obj, **kw)
    except (AssertionError, KeyError):
        n, res = None, 'error'
    if res == 'ok' and n is None:
        res = 'none'
    elif res == 'ok':
        cols = list(n.columns)
        ids = rank_names(d, None)
        if len(set(cols)) == len(cols):
            for r in n.to_dict('records'):
                out.append(dict(
                    s=ids.get(r['source'], -1) if 'source' in r else 0,
                    t=[minutes(r['date'])] if 'date' in r else [],
                    x=num(r['x']), y=opt(r['y']),
                    w=[opt(r['weight'])] if 'weight' in r else []))
    same = obj.equals(keep) and list(obj.index) == list(keep.index)
    if isinstance(obj, pd.DataFrame):
        same = same and list(obj.columns) == list(keep.columns) and \
            (obj.dtypes == keep.dtypes).all()
    else:
        same = same and obj.name == keep.name and obj.dtype == keep.dtype
    return dict(ev='Norm', d=plain(d), valued=not fmt.get('novalue'),
                res=res, out=out, cols=cols, same=bool(same))


def plain(d):
    return dict(cols=d['cols'], index=d['index'], rows=d['rows'])


def gen_fmt(rng, d):
    """How a description is written down"""
    f = dict(order=rng.randint(0, 3))
    if rng.random() < .4:
        other = dict(y=['value', 'Y', 'sales'], weight=['w'], x=['ix', 't'],
                     date=['day', 'when'], source=['src', 'id'])
        f['cols'] = {r: rng.choice(other[r]) for r in ROLES
                     if rng.random() < .6}
    if rng.random() < .3:
        f['junk'] = {'extra': 5, 'note': 'abc'}
        for r in f.get('cols', {}):
            # unrelated columns may have the default names
            if r in d['cols'] + ['y'] and rng.random() < .5:
                f['junk'][r] = rng.choice([3, 'abc'])
    f['dtext'] = rng.choice(['ts', 'ts', 'text', 'long', 'date', 'py'])
    f['int'] = rng.random() < .3
    f['iname'] = rng.choice([None, None, 'date', 'idx'])
    if f['iname'] == 'date' and d['index'] != 'date':
        f['iname'] = None
    if not d['cols'] and rng.random() < .4:
        f['series'] = True
        f['sname'] = rng.choice([None, f.get('cols', {}).get('y', 'y')])
    return f


def gen_desc(rng, nmax=12):
    cols = [c for c in ('date', 'x', 'weight', 'source')
            if rng.random() < dict(date=.6, x=.3, weight=.5, source=.4)[c]]
    index = rng.choice(['date', 'int', 'int', 'other'])
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, nmax])
    base = rng.randint(10000, 20000) * DAY
    unit = rng.choice([60, DAY, DAY, 7 * DAY, 30 * DAY])
    tod = rng.choice([0, 0, 600])
    ns = rng.randint(1, 4)
    rows = []
    for i in range(n):
        rows.append(dict(
            s=rng.randint(1, ns), i=rng.choice([i, i * 2 - 3,
                                                rng.randint(-5, 9)]),
            t=base + tod + unit * rng.randint(0, 20),
            x=rng.randint(-4, 12),
            y=[] if rng.random() < .15 else [rng.randint(-99, 999)],
            w=[] if rng.random() < .1 else [rng.randint(-1, 4)]))
    how = rng.choice(['sorted', 'shuffle', 'reverse'])
    if how == 'sorted':
        rows.sort(key=lambda r: r['t'])
    elif how == 'reverse':
        rows.sort(key=lambda r: -r['t'])
    names = sorted(rng.sample(NAMES, 4))
    return dict(cols=cols, index=index, rows=rows, names=names)


def from_mc(ctx, n):
    out = []
    for g in ctx.sample(ctx.gen.get('MC_Norm', []), n):
        d = dict(cols=list(g['cols']), index=g['index'], names=['Aa', 'b'],
                 rows=[dict(r, y=list(r['y']), w=list(r['w']),
                            t=r['t'] + 18000 // 7 * 7 * DAY)
                       for r in g['rows']])
        out.append(d)
    return out
