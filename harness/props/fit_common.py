"""Series whose least squares fit is known exactly (spec/Fit.tla)."""
from fractions import Fraction
from math import gcd

from anticipy import forecast_models as fm
from anticipy.forecast_models import ForecastModel

from lib import DAY, np, pd, ts
from props import models_common as mc

# ---------------------------------------------------------------- terms
# A model is a sum of leaves of models_common.


def n_params(leaf):
    n, v = leaf['n'], leaf['v']
    return dict(constant=1, linear=2, step_date=1, spike_date=1,
                season_wday=6, dummy=1, dummies=len(v))[n]


def hit(v, s):
    k = v['kind']
    wd = (s['d'] + 3) % 7
    c = pd.Timestamp('1970-01-01') + pd.Timedelta(days=s['d'])
    return {'weekday<5': lambda: wd < 5,
            'christmas': lambda: c.month == 12 and c.day == 25,
            'month_start': lambda: c.day == 1,
            'x': lambda: s['x'] in v['l'],
            't': lambda: s['t'] in v['l']}[k]()


def basis(leaf, s):
    """Derivatives of the value by the parameters"""
    n, v = leaf['n'], leaf['v']
    if n == 'constant':
        return [1]
    if n == 'linear':
        return [s['x'], 1]
    if n == 'step_date':
        return [int(s['t'] >= v[0])]
    if n == 'spike_date':
        return [int(v[0] <= s['t'] < v[1])]
    if n == 'season_wday':
        return [int((s['d'] + 3) % 7 == k) for k in range(1, 7)]
    if n == 'dummy':
        return [int(hit(v, s))]
    return [int(hit(w, s)) for w in v]


def phi(leaves, s):
    return [b for lf in leaves for b in basis(lf, s)]


def term(leaves):
    """The sum as a term of the specification"""
    t = None
    for lf in leaves:
        a = dict(k='leaf', n=lf['n'], nm=lf['nm'], c=[], v=lf['v'])
        t = a if t is None else dict(
            k='add', n='', nm='(%s+%s)' % (t['nm'], a['nm']), c=[t, a], v=[])
    return t


def model(leaves, unit=1.0):
    m = None
    for lf in leaves:
        if lf.get('own'):
            base = mc.real_leaf(dict(lf, bounds=None))
            lo, hi = lf['own']
            k = ForecastModel(
                lf['nm'] + '_b', base.n_params, base.f_model,
                lambda a_x=None, a_y=None, a_date=None, is_mult=False,
                lo=lo, hi=hi: np.array([inside(a, b, unit)
                                        for a, b in zip(lo, hi)]),
                lambda a_x=None, a_y=None, a_date=None, lo=lo, hi=hi: (
                    [unit * a[0] if a else -np.inf for a in lo],
                    [unit * b[0] if b else np.inf for b in hi]),
                l_cache_vars=base.l_cache_vars or None)
        else:
            k = mc.real_leaf(lf)
        m = k if m is None else m + k
    return m


def real_term(t):
    if t['k'] == 'leaf':
        return mc.real_leaf(t)
    a, b = (real_term(c) for c in t['c'])
    return a + b if t['k'] == 'add' else a * b


def inside(a, b, unit):
    if a and b:
        return unit * (a[0] + b[0]) / 2.
    return unit * (a[0] + 1 if a else b[0] - 1 if b else 1)


# ------------------------------------------------------- optimal series

def factors(use):
    cnt = {}
    for r in use:
        cnt[r['x']] = cnt.get(r['x'], 0) + 1
    return [6 * r['w'] // cnt[r['x']] for r in use], cnt


def null_vector(rows, rng):
    """An integer vector v with rows . v = 0 (rows: equations)"""
    n = len(rows[0]) if rows else 0
    m = [[Fraction(a) for a in r] for r in rows]
    piv, r = [], 0
    for c in range(n):
        k = next((i for i in range(r, len(m)) if m[i][c]), None)
        if k is None:
            continue
        m[r], m[k] = m[k], m[r]
        m[r] = [a / m[r][c] for a in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c]:
                m[i] = [a - m[i][c] * b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    if not free:
        return None
    v = [Fraction(0)] * n
    for c in free:
        v[c] = Fraction(rng.choice([1, 1, -1, 2]))
    for i, c in enumerate(piv):
        v[c] = -sum(m[i][f] * v[f] for f in free)
    den = 1
    for a in v:
        den = den * a.denominator // gcd(den, a.denominator)
    v = [int(a * den) for a in v]
    g = 0
    for a in v:
        g = gcd(g, a)
    return [a // g for a in v] if g else None


def residuals(leaves, use, rng, active=(), tries=60, lim=60, want=8):
    """Integer residuals orthogonal to all parameters but the active ones"""
    f, _ = factors(use)
    P = [phi(leaves, s) for s in use]
    J = [j for j in range(len(P[0])) if j not in active]
    r = [0] * len(use)
    done = 0
    for _ in range(tries):
        if done >= want:
            break
        a = rng.randrange(len(use))
        how = rng.choice(['x', 'wd', 'any', 'any', 'near'])
        pool = [i for i in range(len(use)) if i != a and (
            how == 'any' or
            how == 'x' and use[i]['x'] == use[a]['x'] or
            how == 'wd' and (use[i]['d'] - use[a]['d']) % 7 == 0 or
            how == 'near' and abs(i - a) < 4)]
        k = min(len(pool), rng.choice([1, 2, 2, 3, 4]))
        if k < 1:
            continue
        B = sorted([a] + rng.sample(pool, k))
        v = null_vector([[f[i] ** 2 * P[i][j] for i in B] for j in J], rng)
        if v is None:
            continue
        q = rng.choice([1, 1, -1, 2, -3])
        new = list(r)
        for i, c in zip(B, v):
            new[i] += q * c
        if max(map(abs, new)) > lim:
            continue
        r = new
        done += 1
    g = [sum(f[i] ** 2 * r[i] * P[i][j] for i in range(len(use)))
         for j in range(len(P[0]))]
    assert all(g[j] == 0 for j in J)
    return r, g


def full_rank(leaves, use):
    P = np.array([phi(leaves, s) for s in use], dtype=float)
    return bool(np.linalg.matrix_rank(P) == P.shape[1])


def rand_leaves(rng, d0, n, dated=True, tod=False):
    """A sum of leaves for dates d0 .. d0 + n"""
    d = d0 + rng.randint(1, max(1, n - 2))
    t = d * DAY + (720 if tod and rng.random() < .5 else 0)
    k = rng.randint(0, 10 ** 6)
    one = [[mc.L('constant')], [mc.L('linear')],
           [mc.L('linear', nm='linear_nondec')],
           [mc.L('dummy', dict(kind='x', l=sorted(rng.sample(
               range(n), min(n, rng.randint(1, 4))))), 'dx%d' % k)]]
    if dated:
        season = rng.choice([
            [mc.L('season_wday')], [mc.DUMMY[0]], [mc.DUMMY[2]],
            [mc.L('dummy', dict(kind='t', l=[
                (d0 + q) * DAY for q in rng.sample(range(n), min(n, 3))]),
                'dt%d' % k)],
            [mc.L('dummies', [dict(kind='t', l=[(d0 + q) * DAY]) for q in
                              rng.sample(range(n), min(n, 2))],
                  'ds%d' % k)]])
        step = rng.choice([
            [mc.L('step_date', [t])],
            [mc.L('spike_date', [t, t + rng.randint(1, 5) * DAY])]])
        one += [[mc.L('step_date', [t])], step, season]
        two = [a + b for a in one[:3] for b in (season, step)]
        two += [[mc.L('linear')] + step + season,
                season + [mc.L('linear')], step + [mc.L('constant')]]
    else:
        two = [one[1] + one[3], one[3] + one[0]]
    return [dict(lf) for lf in rng.choice(one + two + two)]


def frame(rows, unit=1., wunit=1., dated=True, weighted=True, with_x=True):
    d = {}
    if dated:
        d['date'] = [ts(r['t']) for r in rows]
    if with_x:
        d['x'] = [r['x'] for r in rows]
    d['y'] = np.array([np.nan if r['y'] is None else r['y'] * unit
                       for r in rows], dtype=float)
    if weighted:
        d['weight'] = np.array([np.nan if r['w'] is None else r['w'] * wunit
                                for r in rows], dtype=float)
    return pd.DataFrame(d)
