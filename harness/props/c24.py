"""C24: plots show every source, its actuals and its forecast."""
import contextlib
import io
import json
import os
import random
import shutil
import tempfile
import warnings

from lib import *  # noqa: F401,F403
from lib import DAY, fix, isnull, np, num, pd, ts

MC = [dict(module='MC_Plot', thorough_cfg='MC_Plot_thorough.cfg',
           coverage=False)]
CONF = 'Conf_Plot'
OWNS = None
ASSUMPTIONS = ['figures are read from the html file, from the matplotlib '
               'figure at the time it is saved, and from the figure handed '
               'to plotly for notebooks',
               'one forecast per source; up to 40 sources']
SELF_TEST = 14


def scenarios(ctx):
    rng = ctx.rng
    res = []
    gen = ctx.gen['MC_Plot']
    wide = [g for g in gen if len(g['rows']) > 5]
    rest = [g for g in gen if len(g['rows']) <= 5]
    pick = ctx.sample(rest, ctx.pick(130, 1500)) + ctx.sample(
        wide, ctx.pick(14, 60))
    for g in pick:
        res.append(dict(rows=g['rows'], kind='tlc', seed=rng.randint(0, 10**9),
                        fmt=rng.choice(['png', 'html', 'html', 'jupyter'])))
    while len(res) < ctx.pick(330, 4000):
        res.append(dict(rows=None, kind='rand', seed=rng.randint(0, 10 ** 9),
                        fmt=rng.choice(['png', 'png', 'html', 'html', 'html',
                                        'jupyter', 'svg', 'PNG', '',
                                        'html '])))
    return res


def rand_rows(rng):
    """A table like those of the API, or rows in any order"""
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10])
    names = rng.sample(['b', 'a', 'src', 'Z z', 's1', 's10', '10', '9', 'x',
                        'y', 'c'], n)
    rows = []
    for s in names:
        d0 = rng.randint(17000, 18000)
        na, nf = rng.randint(1, 6), rng.randint(1, 8)
        if n > 1 and rng.random() < .08:
            na = 0
        elif rng.random() < .08:
            nf = 0
        for i in range(na):
            rows.append(dict(s=s, t=d0 + i, a=True))
        for i in range(nf):
            rows.append(dict(s=s, t=d0 + na - 1 + i, a=False))
    if rng.random() < .25:
        rng.shuffle(rows)
    return rows


def drive(sc):
    rng = random.Random(sc['seed'])
    rows = [dict(r) for r in sc['rows'] or rand_rows(rng)]
    off = 0 if sc['kind'] == 'rand' else rng.randint(17000, 18000)
    tod = rng.choice([0, 0, 0, 615])
    names = []
    for r in rows:
        if r['s'] not in names:
            names.append(r['s'])
    src = sc['kind'] == 'tlc' and len(names) > 1 or len(names) > 1 or \
        rng.random() < .6
    q = rng.choice([[], [5, 20], [5, 20], [5], [20], [10, 30], [10, 20]])
    scale = rng.choice([1, 1, 1000])
    dated = rng.random() < .85
    for r in rows:
        r['t'] = (r['t'] + off) * DAY + tod if dated else r['t'] - 3
        v = rng.randint(-500, 500)
        r['y'] = [] if rng.random() < .08 else [v * scale]
        r['b'] = []
        hole = rng.random() < .1
        for i, p in enumerate(q):
            lo, hi = v - 90 + p - rng.randint(0, 9), \
                v + 90 - p + rng.randint(0, 9)
            b = [[lo * scale], [hi * scale]]
            if r['a'] or hole:
                b = [[], []]
            elif rng.random() < .08:
                b[rng.randint(0, 1)] = []
            r['b'].append(b)
    f = lambda o: np.nan if not o else float(o[0])  # noqa: E731
    d = dict(date=[ts(r['t']) if dated else 0 for r in rows],
             model=['actuals' if r['a'] else 'linear' for r in rows],
             y=[f(r['y']) for r in rows], is_actuals=[r['a'] for r in rows])
    if not dated:
        d['x'] = [r['t'] for r in rows]
        del d['date']
    if src:
        ints = all(s.isdigit() for s in names) and rng.random() < .5
        d['source'] = [int(r['s']) if ints else r['s'] for r in rows]
    for i, p in enumerate(q):
        d['q%d' % p] = [f(r['b'][i][0]) for r in rows]
        d['q%d' % (100 - p)] = [f(r['b'][i][1]) for r in rows]
    df = pd.DataFrame(d)
    if rng.random() < .2:
        df['weight'] = [rng.choice([0., 1.]) for _ in rows]
        df['is_best_fit'] = ~df.is_actuals
    if rng.random() < .3:
        df.index = rng.sample(range(100), len(df)) if len(df) <= 100 else \
            df.index
    interval = rng.random() < .65
    pq = rng.choice([(5, 20), (5, 20), (10, 20), (10, 30), (20, 5)])
    fmt = sc['fmt']
    path = rng.random() > .06
    library = rng.random() > .06
    h = rng.choice([600, 900, 1200])
    size = rng.choice([(900, h), (1200, h), (None, None)])
    leg = rng.random() < .5
    e = dict(ev='Plot', fmt=fmt, path=path, library=library,
             T=dict(src=src, q=q, rows=rows), qs=list(pq) if interval else [],
             size=str(size), base=rng.choice(['p', 'p', 'v1.2', 'a.png', 'x y',
                                               'p.html']))
    kw = dict(width=size[0], height=size[1], show_legend=leg,
              include_interval=interval)
    if pq != (5, 20) or rng.random() < .5:
        kw.update(pi_q1=pq[0], pi_q2=pq[1])
    if rng.random() < .5:
        kw['title'] = 'The plot'
    sub = rng.choice(['', '', 'new'])
    if path and fmt == 'html':
        sub = ''
    before = df.copy(deep=True)
    tmp = tempfile.mkdtemp(prefix='plot')
    try:
        rc, figs = call(df, fmt, os.path.join(tmp, sub, e['base']) if path else
                        rng.choice([None, '']), library, kw)
        files = [os.path.relpath(os.path.join(a, x), os.path.join(tmp, sub))
                 for a, _, b in os.walk(tmp) for x in b]
        e.update(rc=rc, files=sorted(files), areas=fmt == 'png')
        panels = []
        if fmt == 'html' and files:
            with open(os.path.join(tmp, files[0])) as fh:
                panels = plotly_panels(html_figure(fh.read()))
        elif fmt == 'jupyter' and figs:
            panels = plotly_panels(json.loads(figs[-1].to_json()))
        elif fmt == 'png' and figs:
            with open(os.path.join(tmp, sub, files[0]), 'rb') as fh:
                if fh.read(4) != b'\x89PNG':
                    files.append('not a picture')
            panels = figs[-1]
        e.update(panels=panels)
    finally:
        shutil.rmtree(tmp)
    e['same'] = bool(df.equals(before) and
                     list(df.columns) == list(before.columns) and
                     df.index.equals(before.index) and
                     (df.dtypes == before.dtypes).all())
    return [e]


def call(df, fmt, path, library, kw):
    """Calls plot_forecast, keeps the figures it hands over"""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.backend_bases import FigureCanvasBase as Canvas
    import plotly.io as pio
    from plotly.utils import PlotlyJSONEncoder
    from anticipy import forecast_plot as fp
    figs = []
    old = Canvas.print_figure, pio.show

    def save(self, *a, **k):
        figs.append(mpl_panels(self.figure))
        return old[0](self, *a, **k)

    def show(fig, *a, **k):
        figs.append(pio.from_json(json.dumps(
            fig, cls=PlotlyJSONEncoder)) if isinstance(fig, dict) else fig)

    lib = '_matplotlib_imported' if fmt == 'png' else '_plotly_imported'
    Canvas.print_figure, pio.show = save, show
    have = getattr(fp, lib)
    if not library:
        setattr(fp, lib, False)
    try:
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            r = fp.plot_forecast(df, fmt, path, **kw)
        rc = [] if r is None else [int(r)]
    except Exception as ex:
        if os.environ.get('NV'):
            import traceback
            traceback.print_exc()
        rc = [-1]
        assert type(ex).__name__ != 'MemoryError'
    finally:
        Canvas.print_figure, pio.show = old
        setattr(fp, lib, have)
        fp.plt.close('all')
    return rc, figs


def val(v):
    return [] if v is None or isnull(v) else [fix(v, 1000)]


def html_figure(text):
    """data and layout of a plotly page"""
    i = text.index('Plotly.newPlot(')
    dec = json.JSONDecoder()
    i = text.index('[', i)
    data, j = dec.raw_decode(text, i)
    layout, _ = dec.raw_decode(text, text.index('{', j))
    return dict(data=data, layout=layout)


def plotly_panels(fig):
    lay = fig['layout']
    by = {}
    for t in fig['data']:
        by.setdefault((t.get('xaxis', 'x'), t.get('yaxis', 'y')),
                      []).append(t)
    dom = {}
    for k in by:
        ax = lay.get('xaxis' + k[0][1:], {})
        ay = lay.get('yaxis' + k[1][1:], {})
        dom[k] = (ax.get('domain', [0, 1]), ay.get('domain', [0, 1]))
    rows = sorted({round(d[1][0], 6) for d in dom.values()}, reverse=True)
    cols = sorted({round(d[0][0], 6) for d in dom.values()})
    notes = list(lay.get('annotations', []))
    res = []
    for k, tr in by.items():
        (x0, x1), (y0, y1) = dom[k]
        # the title is centred above its panel
        title = [a['text'] for a in notes if
                 abs(a['x'] - (x0 + x1) / 2) < 1e-6 and
                 abs(a['y'] - y1) < 1e-6]
        act, fc, bands = [], [], []
        for t in tr:
            pts = [[minutes_of(a), val(b)] for a, b in zip(
                t.get('x', []), t.get('y', []))]
            if t['name'] == 'Actuals':
                act += pts
            elif t['name'] == 'Forecast':
                fc += pts
            else:
                bands.append((float(t['name'].split('%')[0]), pts))
        low = [b for b in bands if b[0] < 50]
        up = {b[0]: b[1] for b in bands if b[0] >= 50}
        low.sort(key=lambda b: b[0])
        res.append(dict(
            title=title[:1], act=act, fc=fc,
            pos=[rows.index(round(y0, 6)) + 1, cols.index(round(x0, 6)) + 1],
            bands=[[b[1], up.get(100 - b[0], [])] for b in low]))
    return res


def minutes_of(v):
    if isinstance(v, (int, float, np.number)):     # not a date
        return int(v)
    t = pd.Timestamp(v)
    return int(t.value // (60 * 10 ** 9))


def mpl_panels(fig):
    from matplotlib.dates import num2date
    axes = [a for a in fig.axes if a.get_visible()]
    box = [a.get_position() for a in fig.axes]
    rows = sorted({round(b.y0, 5) for b in box}, reverse=True)
    cols = sorted({round(b.x0, 5) for b in box})
    res = []
    for a in axes:
        ln = {x.get_label(): x for x in a.lines}

        def pts(x):
            u = x.get_xdata(orig=True)
            if np.asarray(u).dtype.kind == 'M':
                u = pd.DatetimeIndex(u)
            return [[minutes_of(a), val(b)] for a, b in zip(
                u, x.get_ydata(orig=True))]
        dates = any(np.asarray(x.get_xdata(orig=True)).dtype.kind == 'M'
                    for x in a.lines)
        bands = []
        for c in a.collections:
            b = []
            for p in c.get_paths():
                for u, v in p.vertices:
                    if dates:
                        t = pd.Timestamp(num2date(u)).tz_localize(None)
                        u = t.round('min')
                    else:
                        u = int(round(u))
                    b.append([minutes_of(u), fix(v, 1000)])
            bands.append(sorted({tuple(q) for q in b}))
        # (the outer interval is drawn first)
        res.append(dict(
            title=[a.get_title()] if a.get_title() else [],
            pos=[rows.index(round(a.get_position().y0, 5)) + 1,
                 cols.index(round(a.get_position().x0, 5)) + 1],
            act=pts(ln['Actuals']), fc=pts(ln['Forecast']),
            bands=[[list(q) for q in b] for b in bands]))
    return res


def corrupt(tr, rng, sc):
    e = tr[0]
    if not e['panels'] or e['rc'] != [0]:
        if e['rc'] == [0]:
            return None
        e['rc'] = [0]
        return 'rc', tr
    p = rng.choice(e['panels'])
    how = rng.choice(['drop', 'title', 'act', 'fc', 'swap', 'rc', 'same',
                      'file', 'pos', 'band', 'row'])
    if how == 'drop':
        e['panels'].remove(p)
    elif how == 'title':
        p['title'] = ['other']
    elif how in ('act', 'fc') and p[how]:
        r = rng.choice(p[how])
        r[1] = [5] if not r[1] else []
    elif how == 'swap' and p['act'] != p['fc']:
        p['act'], p['fc'] = p['fc'], p['act']
    elif how == 'rc':
        e['rc'] = [1]
    elif how == 'same':
        e['same'] = False
    elif how == 'file' and e['files']:
        e['files'].append('more')
    elif how == 'pos':
        p['pos'] = [p['pos'][0] + 1, p['pos'][1]]
    elif how == 'band' and p['bands']:
        p['bands'].pop()
    elif how == 'row' and p['fc']:
        p['fc'].pop()
    else:
        return None
    return how, tr
