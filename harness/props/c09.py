"""C09: the error criterion."""
from anticipy.model_utils import get_aic_c

from props.pipe_common import *  # noqa: F401,F403
from props import pipe_common as pc

OWNS = ('aic',)
ASSUMPTIONS = [
    'series in the domain of C11 and C12',
    'values are compared within 10^-3 + 10^-3 n (n <= 900), longer series '
    'within 5 + n / 100; order comparisons are exact',
    'k <= 60, n <= 60000 (k = 0: n <= 60000)']
SELF_TEST = 12


def aic_scenario(rng, thorough):
    """Cases that share n, in pairs that differ in one argument"""
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 23, 60, 100, 365, 730, 900,
                    1500, 2900, 4047, 4049, 5000, 20000, 60000,
                    rng.randint(3, 900)])
    ks = sorted({rng.choice([0, 1, 2, 3, 9, 30, max(n - 3, 0), n - 2, n - 1,
                             n, n + 1]) for _ in range(4)} & set(
                                 range(0, 61)))
    den = rng.choice([1, 2, 7, 100, 30000])
    nums = [0] + [rng.randint(1, rng.choice([3, 100, 10 ** 4, 10 ** 6]))
                  for _ in range(3)]
    nums += [nums[-1] + 1]
    ex = 0
    if rng.random() < .4:
        ex = rng.choice([3, 9, 13, 20, 100, 280]) if n <= 900 else \
            rng.choice([3, 9, 12])
        if n * ex > 720000:
            ex = 0
    return dict(kind='aic', n=n, ks=ks or [1], den=den, ex=ex,
                nums=sorted(set(nums)))


def scenarios(ctx):
    rng = ctx.rng
    res = [aic_scenario(rng, ctx.thorough)
           for _ in range(ctx.pick(250, 4000))]
    res += pc.from_tlc(ctx, ctx.pick(150, 1500))
    while len(res) < ctx.pick(650, 8000):
        sc = pc.gen_scenario(rng, rng.choice([1, 1, 2]))
        if rng.random() < .25:
            for r in sc['rows']:
                if r['y'] is not None:
                    r['y'] = 2 if rng.random() < .95 else 1
        if pc.in_domain(sc):
            res.append(sc)
    return res


def drive(sc):
    if sc.get('kind') != 'aic':
        return [pc.run_event(sc, simple=False)]
    out, n = [], sc['n']
    for k in sc['ks']:
        for m in sc['nums']:
            try:
                v = get_aic_c(m / sc['den'] * 10. ** -sc['ex'], n, k)
                err = False
            except ValueError:
                v, err = float('nan'), True
            out.append(dict(num=m, den=sc['den'], ex=sc['ex'], n=n, k=k, err=err, raw=v,
                            unit=3 if n <= 900 else 0))
    fin = sorted({c['raw'] for c in out if not c['err']})
    for c in out:
        c['rank'] = 0 if c['err'] else fin.index(c['raw']) + 1
        c['v'] = pc.fix(c.pop('raw'), 10 ** c['unit'])
    return [dict(ev='Aic', c=out)]


def corrupt(tr, rng, sc):
    e = tr[0]
    if e['ev'] == 'Aic':
        c = rng.choice(e['c'])
        if c['err']:
            c['err'] = False
            return 'not rejected', tr
        how = rng.choice(['value', 'rank'])
        if how == 'value':
            if abs(c['v']) > 10 ** 9:
                return None
            c['v'] += 4000 if c['unit'] == 3 else 700
            return 'value', tr
        o = [d for d in e['c'] if d['k'] == c['k'] and d['num'] > c['num'] and
             not d['err']]
        if not o:
            return None
        c['rank'] = o[0]['rank']
        return 'rank', tr
    m = [m for m in e['meta'] if m['st'] == 'FIT' and m['np'] == 0 and
         30000 <= m['cost'] < 2 * 10 ** 9]
    if not m:
        return None
    m = rng.choice(m)
    if abs(m['aic']) > 10 ** 9:
        return None
    m['aic'] += 1500
    return 'criterion', tr
