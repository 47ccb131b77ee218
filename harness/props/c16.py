"""C16: cached variables."""
from props.models_common import *

OWNS = ['cache']
SELF_TEST = 15
ASSUMPTIONS = [
    'fits are compared with the same random seed, to nine digits',
    'models of the same name are the same model']


def scenarios(ctx):
    rng = ctx.rng
    res = tlc_progs(ctx, ctx.pick(200, 2000))
    for _ in range(ctx.pick(300, 2500)):
        leaves, d0 = lib_leaves(rng)
        leaves = rng.sample(leaves, rng.randint(2, 6))
        res.append(dict(
            kind='prog', leaves=leaves, value=False, d0=d0, spread=rng.choice(
                [10, 400, 2000]), prog=random_prog(
                rng, leaves, rng.randint(1, 6), .15, nmax=60),
            seed=rng.randint(0, 10 ** 6)))
    for _ in range(ctx.pick(140, 1200)):
        res.append(dict(kind='fitpair', seed=rng.randint(0, 10 ** 6)))
    return res


def corrupt(tr, rng, sc):
    e = rng.choice(tr)
    if e['ev'] == 'FitPair':
        e['b'] += 1
        return 'fit', tr
    if e['ev'] != 'Eval':
        return None
    how = rng.choice(['out', 'key', 'double'])
    if how == 'out':
        e['rawc'] += 1
    elif how == 'key':
        e['keys'] = e['keys'] + ['zz']
    else:
        if not e['keys']:
            return None
        fixed = any(x['ev'] == 'Make' and x['op'] == 'fix' for x in tr)
        if fixed:
            return None
        e['keys'] = e['keys'][1:]
    return how, tr
