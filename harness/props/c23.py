"""C23: the command line produces what the API returns."""
import contextlib
import hashlib
import io
import json
import os
import random
import runpy
import shutil
import subprocess
import sys
import tempfile
import warnings
import zlib

from lib import *  # noqa: F401,F403
from lib import np, pd
from props.c24 import html_figure, mpl_panels, plotly_panels

MC = [dict(module='MC_Cli', thorough_cfg='MC_Cli_thorough.cfg',
           coverage=False),
      dict(module='MC_Cli', cfg='MC_Cli_two.cfg',
           thorough_cfg='MC_Cli_two.cfg', may_be_idle=['Kill']),
      dict(module='MC_Cli', cfg='MC_Cli_crash.cfg',
           thorough_cfg='MC_Cli_crash.cfg')]
CONF = 'Conf_Cli'
OWNS = None
ASSUMPTIONS = ['most runs of the tool are executed in the process of the '
               'harness (its module run as __main__), some in processes of '
               'their own',
               'the API is called with the table that pandas.read_csv makes '
               'of the input; times taken by the fits are ignored']
SELF_TEST = 10
SEED_SITE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'seedsite')


def scenarios(ctx):
    rng = ctx.rng
    res = []
    gen = ctx.gen['MC_Cli']
    # at least one run that can succeed
    good = [g for g in gen if any(
        r['inp'] and r['inp'][0]['n'][0] in 'ab' and
        r['out'].get('d') != 'missing' and r['out'].get('n') !=
        ['none', 'csv'] and r['inp'][0]['n'][-1] == 'csv'
        for r in g['runs'])]
    for g in ctx.sample(good, ctx.pick(70, 1000)) + ctx.sample(
            gen, ctx.pick(10, 50)):
        res.append(dict(runs=g['runs'], seed=rng.randint(0, 10 ** 9),
                        kind='tlc'))
    for i in range(ctx.pick(40, 500)):
        res.append(dict(runs=None, seed=rng.randint(0, 10 ** 9),
                        kind='rand'))
    for i in range(ctx.pick(10, 60)):
        res.append(dict(runs=None, seed=rng.randint(0, 10 ** 9),
                        kind='process'))
    rng.shuffle(res)
    return res


# ----------------------------------------------------------------- content


def csv(rng, kind):
    """Text of an input file"""
    if kind == 'bad':
        return rng.choice(['', 'a;b\n1;2\n', 'date,value0\n2020-01-01,4\n',
                           'date,y\nhello,1\nthere,2\n', 'date,y\n',
                           'y,y2\nu,v\nw,z\n'])
    n_src = rng.choice([1, 1, 2, 3])
    freq = rng.choice(['D', 'D', 'W', 'MS', 'x'])
    fmt = rng.choice(['%Y-%m-%d'] * 4 + ['%m/%d/%Y', '%Y-%m-%dT%H:%M:%S',
                                         '%d %B %Y'])
    rows = []
    for s in range(n_src):
        n = rng.randint(9, 30)
        start = pd.Timestamp('2019-01-01') + pd.Timedelta(
            days=rng.randint(0, 500))
        d = pd.date_range(start, periods=n, freq=freq if freq != 'x'
                          else 'D')
        v = rng.randint(5, 50)
        gap = rng.choice([0, .1])
        keep = [i for i in range(n) if rng.random() >= gap]
        for i in keep:
            v += rng.randint(-3, 4)
            r = dict(date=d[i].strftime(fmt),
                     day=(d[i] + pd.Timedelta(days=3)).strftime(fmt),
                     y=v if rng.random() > .05 else '',
                     value=v * 10 + rng.randint(-20, 20),
                     weight=rng.choice([1, 1, 1, 0, .5]),
                     w2=rng.choice([1, 0, 2]), x=i, k=3 * i + 1,
                     source='s%d' % (3 - s), src2='t%d' % (i % 2))
            rows.append(r)
            if rng.random() < .04 and len(keep) == n:
                rows.append(dict(r))
        if n_src == 1 and len(keep) < n and rng.random() < .2:
            rows += [dict(r) for r in rows]
    if freq != 'x' and rng.random() < .2:
        rng.shuffle(rows)
    df = pd.DataFrame(rows)
    drop = []
    if freq == 'x':
        drop += ['date', 'day']
    else:
        drop += rng.choice([['x'], ['x', 'k'], []])
    if n_src == 1:
        drop += rng.choice([[], ['source'], ['source', 'src2']])
    drop += rng.choice([[], ['weight'], ['weight', 'w2']])
    if rng.random() < .5:
        df['note'] = 'n'
    cols = [c for c in df.columns if c not in drop]
    if rng.random() < .3:
        rng.shuffle(cols)
    return df[cols].to_csv(index=False)


def options(rng):
    o = {}
    if rng.random() < .85:
        o['forecast_years'] = rng.choice([.05, .1, .2, .3, .5, 1.0, 1.5])
    for k, v in (('y', 'value'), ('weight', 'w2'), ('x', 'k'),
                 ('date', 'day'), ('source', 'src2')):
        if rng.random() < .3:
            o['col_name_' + k] = v if rng.random() < .95 else 'nothing'
    if rng.random() < .35:
        o['include_all_fits'] = True
    return o


def api(path, o, fmt, seed):
    """What the API makes of the content of a file"""
    from anticipy import forecast as fc
    bad = dict(ok=False)
    try:
        df = pd.read_csv(path)
        kw = {k: v for k, v in o.items() if k.startswith('col_name')}
        np.random.seed(seed)
        res = fc.run_forecast(
            df, extrapolate_years=o.get('forecast_years', 2.0),
            include_all_fits=o.get('include_all_fits', False),
            simplify_output=False, **kw)
        data, meta = res['data'], res['metadata']
        text = [t.to_csv(index=False) for t in (data, meta)]
    except Exception as ex:
        return dict(bad, why=str(ex)[:200])
    plot = ''
    if fmt in ('png', 'html'):
        from anticipy import forecast_plot as fp
        tmp = tempfile.mkdtemp(prefix='cliref')
        try:
            with hooks({}) as figs:
                fp.plot_forecast(data, fmt, os.path.join(tmp, 'p'),
                                 width=1920, height=1080)
            f = os.path.join(tmp, 'p.' + fmt)
            plot = shown(f, figs)
        except Exception as ex:
            return dict(bad, why=str(ex)[:200])
        finally:
            shutil.rmtree(tmp)
    return dict(ok=True, data=table_digest(text[0]),
                meta=table_digest(text[1]), plot=plot)


# ------------------------------------------------------------- file system


def crc(text):
    if isinstance(text, str):
        text = text.encode()
    return hashlib.md5(text).hexdigest()[:12]


def table_digest(text):
    df = pd.read_csv(io.StringIO(text), dtype=str, keep_default_na=False)
    df = df[[c for c in sorted(df.columns) if c != 'fit_time']]
    return 't' + crc(df.to_csv(index=False))


def shown(path, figs):
    """Digest of what a file shows"""
    with open(path, 'rb') as f:
        b = f.read()
    try:
        if path.endswith('.png') and b[:4] == b'\x89PNG':
            if os.path.realpath(path) not in figs:
                return 'png'
            return 'png' + crc(json.dumps(figs[os.path.realpath(path)]))
        if path.endswith('.html'):
            return 'html' + crc(json.dumps(plotly_panels(
                html_figure(b.decode()))))
        if path.endswith('.csv'):
            return table_digest(b.decode())
    except Exception:
        return 'unreadable'
    return 'b' + crc(b)


def files(root, figs):
    res = []
    for a, _, names in os.walk(root):
        for x in sorted(names):
            p = os.path.join(a, x)
            with open(p, 'rb') as f:
                raw = 'b' + crc(f.read())
            res.append(dict(d=os.path.relpath(a, root), n=x.split('.'),
                            c=dict(raw=raw, shown=shown(p, figs))))
    return res


# ------------------------------------------------------------------ the tool


@contextlib.contextmanager
def hooks(missing):
    """Figures by file name; makes plotting libraries unavailable"""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.backend_bases import FigureCanvasBase as Canvas
    import plotly.io as pio
    import anticipy.forecast_plot  # noqa
    figs = {}
    old = Canvas.print_figure, pio.show

    def save(self, filename, *a, **k):
        n = os.path.realpath(str(filename))
        figs[n if n.endswith('.png') else n + '.png'] = mpl_panels(
            self.figure)
        return old[0](self, filename, *a, **k)

    Canvas.print_figure, pio.show = save, lambda *a, **k: None
    mods = [sys.modules[m] for m in ('anticipy.forecast_plot',
                                     'forecast_plot') if m in sys.modules]
    have = [(m, k, getattr(m, k)) for m in mods for k in missing]
    for m, k, _ in have:
        setattr(m, k, False)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield figs
    finally:
        Canvas.print_figure, pio.show = old
        for m, k, v in have:
            setattr(m, k, v)
        anticipy.forecast_plot.plt.close('all')


def argv(rng, root, cwd, a, o, fmt):
    def path(d, n=None):
        p = os.path.normpath(os.path.join(root, d, '.'.join(n) if n else ''))
        style = rng.choice(['abs', 'rel', 'rel'])
        if style == 'rel':
            p = os.path.relpath(p, cwd)
        return p + ('/' if not n and rng.random() < .3 else '')
    r = []
    if a['inp']:
        r += ['--path_in', path(a['inp'][0]['d'], a['inp'][0]['n'])]
    if a['out']['k'] != 'none':
        r += ['--path_out', path(a['out']['d'], a['out'].get('n'))]
    for k, v in o.items():
        r += ['--' + k] if v is True else ['--' + k, str(v)]
    if fmt != 'png' or rng.random() < .5:
        r += ['--output_format', fmt]
    return r


def run_here(args, cwd, missing, seed):
    """(success, figures)"""
    old = os.getcwd(), sys.argv
    os.chdir(cwd)
    sys.argv = ['app.py'] + args
    np.random.seed(seed)
    figs, ok = {}, True
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            with hooks(missing) as figs:
                try:
                    runpy.run_module('anticipy.app', run_name='__main__')
                except SystemExit as ex:
                    ok = ex.code in (None, 0)
                except Exception as ex:
                    if os.environ.get('NV'):
                        import traceback
                        print(traceback.format_exc()[-600:], file=sys.__stderr__)
                    ok = False
    finally:
        os.chdir(old[0])
        sys.argv = old[1]
    return ok, figs


def spawn(args, cwd, rng, seed):
    import anticipy
    repo = os.path.dirname(os.path.dirname(os.path.abspath(
        anticipy.__file__)))
    how = rng.choice([['-m', 'anticipy.app'], [os.path.join(
        repo, 'anticipy', 'app.py')]])
    return subprocess.Popen(
        [sys.executable, '-B', '-W', 'ignore'] + how + args, cwd=cwd,
        env=dict(os.environ, MPLBACKEND='Agg', C23_SEED=str(seed),
                 PYTHONPATH=os.pathsep.join([SEED_SITE, repo])),
        stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL)


def drive(sc):
    rng = random.Random(sc['seed'])
    root = tempfile.mkdtemp(prefix='cli')
    try:
        return session(sc, rng, root)
    finally:
        shutil.rmtree(root)


def session(sc, rng, root):
    if sc['kind'] == 'tlc':
        raw = {('D', 'a.csv'): 'u', ('D', 'a.v2.csv'): 'v',
               ('E', 'b.csv'): 'v', ('E', 'a.txt'): 'bad'}
        opts = {'1': options(rng), '2': options(rng)}
        runs = [dict(r, o=opts[r['opt']]) for r in sc['runs']]
    else:
        names = rng.sample(['a.csv', 'b.csv', 'a.b.csv', 'data', '.csv',
                            'my data.csv', 'c.txt', 'A.csv', 'a_fcast.csv',
                            'png.csv'], 4)
        dirs = ['.', 'D', 'D/in']
        raw = {}
        for x in names:
            raw[rng.choice(dirs), x] = 'bad' if rng.random() < .08 else x
        raw['D/in', 'q.csv'] = 'q'
        runs = []
        n = rng.choice([1, 2, 2, 3]) if sc['kind'] == 'rand' else 2
        for _ in range(n):
            d, x = rng.choice(sorted(raw))
            d2, x2 = rng.choice(sorted(raw))
            out = rng.choice([
                dict(k='none'), dict(k='none'), dict(k='dir', d=d2),
                dict(k='dir', d='out.d'), dict(k='file', d=d2,
                                               n=x2.split('.'))])
            runs.append(dict(
                inp=[dict(d=d, n=x.split('.'))], out=out, library=True,
                o=options(rng), opt='', fmt=rng.choice(
                    ['png', 'html', 'html', 'jupyter', 'bmp', 'HTML', 'csv'])
                if sc['kind'] == 'rand' else rng.choice(['html', 'png'])))
    for d in ('D', 'E', 'out.d', 'D/in'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    text = {}
    for (d, x), c in raw.items():
        if c not in text:
            text[c] = csv(rng, c)
        with open(os.path.join(root, d, x), 'w') as f:
            f.write(text[c])
    # files that are there already
    for d, x in (('D', 'other.txt'), ('E', 'a_fcast.html'),
                 ('D', 'a_metadata.csv'), ('E', 'b_fcast.csv.bak')):
        if rng.random() < .3:
            with open(os.path.join(root, d, x), 'w') as f:
                f.write('old')
    evs = [dict(ev='Folder', dirs=['.', 'D', 'E', 'out.d', 'D/in'],
                fs=files(root, {}))]
    if sc['kind'] == 'process':
        # overlapping runs that write different files
        a, b = runs
        dest = [(r['inp'][0]['d'] if r['out']['k'] == 'none' else
                 r['out']['d'], r['inp'][0]['n'][0]) for r in runs]
        if dest[0] == dest[1] or any(
                [r['inp'][0]['n'] == [q + '_fcast', 'csv']
                 for r in runs for _, q in dest]):
            runs = runs[:1]
    known, figs = [], {}
    for r in runs:
        a = dict(inp=r['inp'], out=r['out'], opt='', fmt=r['fmt'],
                 library=r['library'])
        missing = []
        if sc['kind'] != 'process' and rng.random() < .06 and \
                r['fmt'] in ('png', 'html'):
            a['library'] = False
            missing = ['_matplotlib_imported' if r['fmt'] == 'png'
                       else '_plotly_imported']
        cwd = os.path.join(root, rng.choice(['.', '.', 'D', 'E']))
        args = argv(rng, root, cwd, a, r['o'], r['fmt'])
        i = r['inp'][0] if r['inp'] else dict(d='.', n=['none'])
        p = os.path.join(root, i['d'], '.'.join(i['n']))
        seed = sc['seed'] % 10000
        ref = api(p, r['o'], r['fmt'], seed) if os.path.isfile(p) else \
            dict(ok=False)
        if sc['kind'] == 'process':
            if ref['ok'] and r['fmt'] == 'png':
                ref['plot'] = 'png'
            known.append(dict(a=a, api=ref, args=args, p=spawn(
                args, cwd, rng, seed)))
            continue
        ok, new = run_here(args, cwd, missing, seed)
        # figures by file: later ones replace earlier ones
        figs = dict(new)
        evs.append(dict(ev='Runs', runs=[dict(a=a, api=ref, ok=ok,
                                              args=args)],
                        fs=keep_shown(evs[-1]['fs'], files(root, figs))))
    if known:
        for k in known:
            k['ok'] = k.pop('p').wait(timeout=200) == 0
        evs.append(dict(ev='Runs', runs=known, fs=keep_shown(
            evs[-1]['fs'], files(root, {}))))
    return evs


def keep_shown(old, new):
    """Pictures that did not change show what they showed"""
    o = {(f['d'], tuple(f['n'])): f['c'] for f in old}
    for f in new:
        c = o.get((f['d'], tuple(f['n'])))
        if c and c['raw'] == f['c']['raw'] and f['c']['shown'] == 'png':
            f['c'] = c
    return new


def corrupt(tr, rng, sc):
    e = rng.choice(tr[1:])
    old = {(f['d'], tuple(f['n'])): f['c']['raw'] for f in tr[0]['fs']}
    how = rng.choice(['ok', 'drop', 'add', 'move', 'shown', 'raw'])
    r = rng.choice(e['runs'])
    f = rng.choice(e['fs'])
    was = old.get((f['d'], tuple(f['n'])))
    if how == 'ok':
        r['ok'] = not r['ok']
    elif how == 'drop':
        e['fs'].remove(f)
    elif how == 'add':
        e['fs'].append(dict(f, n=['new', 'csv']))
    elif how == 'move':
        f['d'] = f['d'] + '/x'
    elif how == 'shown' and was is None and len(tr) == 2:
        f['c']['shown'] = 'other'
    elif how == 'raw' and was and len(tr) == 2 and was == f['c']['raw']:
        f['c']['raw'] = 'other'
    else:
        return None
    return how, tr
